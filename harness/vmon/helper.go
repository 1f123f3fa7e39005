package main

import (
	"bufio"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
)

// runHelper is the body of a helper process: it prints what a fresh process generates first.
func runHelper(name string) int {
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for i := 0; i < 300; i++ {
		switch name {
		case "ids":
			fmt.Fprintln(w, wampproto.GenerateID())
		case "challenges":
			s, err := auth.GenerateCryptoSignChallenge()
			if err != nil {
				return 2
			}
			fmt.Fprintln(w, s)
			s, err = auth.GenerateWAMPCRAChallenge(7, "a", "b", "c")
			if err != nil {
				return 2
			}
			fmt.Fprintln(w, s)
		default:
			return 2
		}
	}
	return 0
}

// helpers starts n helper processes at the same time and returns the lines each printed.
func helpers(name string, n int, env ...string) ([][]string, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	type res struct {
		i   int
		out []byte
		err error
	}
	ch := make(chan res, n)
	for i := 0; i < n; i++ {
		go func(i int) {
			cmd := exec.Command(self, "-helper", name)
			cmd.Env = os.Environ()
			if len(env) > 0 {
				cmd.Env = append(cmd.Env, env[i%len(env)])
			}
			t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
			out, err := cmd.Output()
			t.Stop()
			ch <- res{i, out, err}
		}(i)
	}
	all := make([][]string, n)
	for i := 0; i < n; i++ {
		r := <-ch
		if r.err != nil {
			err = r.err
		}
		all[r.i] = strings.Fields(string(r.out))
	}
	return all, err
}
