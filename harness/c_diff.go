package main

func init() { checks["X01"] = checkDiff }

// checkDiff compares everything with the model (not a registered check).
func checkDiff(c *Ctx) {
	langs := Langs()
	n := c.N(1500, 20000)
	Parallel(len(langs), func(i int) {
		l := langs[i]
		r := c.Rng("diff" + l.Name)
		h, err := l.hangulizer()
		if err != nil {
			c.Fail("load", map[string]any{"lang": l.Name, "err": err})
			return
		}
		for k := 0; k < n; k++ {
			w := l.Word(r)
			o := observe(h, w)
			steps, err := l.translitSteps(w)
			if err != nil {
				c.Fail("translit", map[string]any{"lang": l.Name, "err": err})
				return
			}
			res := l.Model.Run(w, steps)
			c.Case(l.Name + w)
			if res.RawJamo {
				c.Count("rawjamo", 1)
				continue
			}
			if o.Word != res.Word || o.Panic != "" || o.Err != "" || diffTraces(o.Traces, res.Traces) != "" {
				c.Fail("diff", map[string]any{"lang": l.Name, "word": w, "got": o.Word, "want": res.Word, "trace": diffTraces(o.Traces, res.Traces), "panic": o.Panic})
			}
		}
	})
}
