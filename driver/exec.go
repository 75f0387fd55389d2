package main

import (
	"fmt"

	"github.com/forsyth/jsonpath"
)

// outcome of one compile-and-evaluate.
type outcome struct {
	R   string // "ok", "rejected", "error", "panic", "hang", "crash"
	Vs  []V
	Msg string
}

func evalOnce(path string, doc V) (o outcome) {
	defer func() {
		if x := recover(); x != nil {
			o = outcome{R: "panic", Msg: fmt.Sprint(x)}
		}
	}()
	p, err := jsonpath.Compile(path)
	if err != nil {
		return outcome{R: "rejected", Msg: err.Error()}
	}
	vs, err := p.Eval(doc)
	if err != nil {
		return outcome{R: "error", Msg: err.Error()}
	}
	return outcome{R: "ok", Vs: vs}
}
