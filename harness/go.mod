module github.com/hangulize/hangulize/verifharness

go 1.22

require (
	github.com/hangulize/hangulize v0.0.0
	github.com/ikawaha/kagome.ipadic v1.1.2
	github.com/mattn/go-runewidth v0.0.14
	github.com/mozillazg/go-pinyin v0.19.0
	golang.org/x/text v0.5.0
)

require (
	github.com/pkg/errors v0.9.1 // indirect
	github.com/rivo/uniseg v0.2.0 // indirect
	github.com/suapapa/go_hangul v1.2.1 // indirect
)

replace github.com/hangulize/hangulize => /repo
