// Command stale transcribes a few words in many goroutines and reports the
// first word whose reading changes. It is built with the morphological
// analyzer as it is, and with a corrected copy.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hangulize/hangulize/translit/furigana"
)

type mismatch struct {
	Word, First, Later string
	After              string
}

func main() {
	limit, err := time.ParseDuration(os.Args[1])
	if err != nil {
		panic(err)
	}
	// Between these words are some with parts which no path through the
	// lattice of the analyzer reaches, such as the end of "むき".
	words := []string{"東京国立近代美術館", "むき", "超克", "びきれ", "正力", "びびは", "本郷入口道上", "むぎぐ", "検波", "びき", "鶴飼", "さぎょら", "へんぼう", "小野浜", "行ってらっしゃい", "国際連合教育科学文化機関"}
	first := map[string]string{}
	for _, w := range words {
		r, err := furigana.T.Transliterate(w)
		if err != nil {
			panic(err)
		}
		first[w] = r
	}
	var calls, wrong int64
	var mu sync.Mutex
	var m *mismatch
	var wg sync.WaitGroup
	t0 := time.Now()
	for g := 0; g < 16; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; time.Since(t0) < limit; i++ {
				w := words[i%len(words)]
				r, _ := furigana.T.Transliterate(w)
				atomic.AddInt64(&calls, 1)
				if r != first[w] && atomic.AddInt64(&wrong, 1) == 1 {
					mu.Lock()
					m = &mismatch{w, first[w], r, time.Since(t0).String()}
					mu.Unlock()
				}
				if atomic.LoadInt64(&wrong) > 100 {
					return
				}
				if i%64 == 0 {
					time.Sleep(time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	b, _ := json.Marshal(map[string]any{"calls": calls, "wrong": wrong, "first": m})
	fmt.Println(string(b))
}
