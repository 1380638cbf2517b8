// Command replay runs one counterexample against the compiled code.
// Exit: 0 ran through, 10 assertion failed, 11 assumption does not hold,
// 12 panic; a hang is seen by the caller.
package main

import (
	"fmt"
	"os"
	"runtime/debug"

	"gosymharness/symrt"
)

var table = map[string]func(){}

func main() {
	r, err := symrt.Load(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	f := table[r.Harness]
	if f == nil {
		fmt.Println("no harness", r.Harness)
		os.Exit(3)
	}
	defer func() {
		p := recover()
		symrt.EndPoints()
		switch p := p.(type) {
		case nil:
			fmt.Println("ok")
		case symrt.Violated:
			fmt.Println("assertion failed:", p.Msg)
			os.Exit(10)
		case symrt.Assumed:
			fmt.Println("assumption does not hold")
			os.Exit(11)
		case symrt.Ended:
		default:
			fmt.Printf("%s\npanic: %v\n", debug.Stack(), p)
			os.Exit(12)
		}
	}()
	f()
}
