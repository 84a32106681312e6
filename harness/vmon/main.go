package main

import (
	"fmt"
	"os"
)

var checks = map[string]func(*Run){}

func main() {
	if len(os.Args) != 2 {
		fmt.Fprintln(os.Stderr, "usage: vmon <property>")
		os.Exit(3)
	}
	prop := os.Args[1]
	f := checks[prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no check for", prop)
		os.Exit(3)
	}
	r := newRun(prop)
	fatal := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				ie, ok := e.(inconclusiveError)
				if !ok {
					panic(e)
				}
				fatal = ie.msg
			}
		}()
		f(r)
	}()
	os.Exit(r.finish(fatal))
}
