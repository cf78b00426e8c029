package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
)

// Secrets past 2^32 bytes, where 32-bit lengths and indices wrap. The calls run
// in a process of their own, with a limit on memory or time.

func init() {
	reg("C01", "giant", c01Giant)
	reg("C09", "giant", c09Giant)
	reg("C06", "giant", c06Giant)
}

// zeroes maps n readable zero bytes without using memory for them.
func zeroes(n int) ([]byte, error) {
	return syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
}

var giantCalls = map[string]func(s []byte) string{
	"SplitP": func(s []byte) string {
		at := []int{0, 1023, len(s)/2 + 7, 1<<32 - 1, 1 << 32, len(s) - 1}
		for i, p := range at {
			if p < len(s) {
				s[p] = byte(i*41 + 7)
			}
		}
		sh, err := shamir.SplitP(s, 2, 2)
		if err != nil || len(sh) != 2 || len(sh[0]) != len(s)+1 || len(sh[1]) != len(s)+1 {
			return fmt.Sprintf("SplitP gives %d shares, %v", len(sh), err)
		}
		tag := func(x []byte) byte { return x[len(x)-1] }
		for _, p := range at {
			if p >= len(s) {
				continue
			}
			lo, hi := p-500, p+500
			if lo < 0 {
				lo = 0
			}
			if hi > len(s) {
				hi = len(s)
			}
			got, err := shamir.Combine([][]byte{append(clone(sh[0][lo:hi]), tag(sh[0])), append(clone(sh[1][lo:hi]), tag(sh[1]))})
			if err != nil || !bytes.Equal(got, s[lo:hi]) {
				return fmt.Sprintf("bytes %d..%d are not recovered from the shares: %s, %v", lo, hi, short(got), err)
			}
		}
		return ""
	},
	"krawczyk.Split": func(s []byte) string {
		sh, err := krawczyk.Split(s, 2, 2)
		return refusal(sh, err)
	},
	"krawczyk.SplitWithRandomizer": func(s []byte) string {
		sh, err := krawczyk.SplitWithRandomizer(s, 3, 2, newGen())
		return refusal(sh, err)
	},
	"worker krawczyk": func(s []byte) string {
		w := worker.NewWorker()
		sh, err := w.Split(worker.AlgSSMS, s, 3, 3)
		return refusal(sh, err)
	},
	"krawczyk round trip": func(s []byte) string {
		for i := 0; i < len(s); i += 1 << 20 {
			s[i] = byte(i>>20) | 1
		}
		s[len(s)-1] = 0x77
		sh, err := krawczyk.Split(s, 2, 2)
		if err != nil {
			return err.Error()
		}
		got, err := krawczyk.Combine([][]byte{sh[1], sh[0]}, 2, 2)
		if err != nil || !bytes.Equal(got, s) {
			return fmt.Sprintf("krawczyk.Combine gives %s, %v", short(got), err)
		}
		return ""
	},
}

func refusal(sh [][]byte, err error) string {
	if err == nil || sh != nil {
		return fmt.Sprintf("not refused: %d shares, error %v", len(sh), err)
	}
	return ""
}

// giantChild is the process of one call: name, length, limit on memory.
func giantChild(spec string) {
	f := strings.Split(spec, "/")
	n, _ := strconv.Atoi(f[1])
	lim, _ := strconv.ParseUint(f[2], 10, 64)
	if lim > 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	s, err := zeroes(n)
	if err != nil {
		fmt.Println("GIANT-NOMEM", err)
		os.Exit(0)
	}
	fmt.Println("GIANT-START")
	if m := giantCalls[f[0]](s); m != "" {
		fmt.Println("GIANT-BAD", m)
	} else {
		fmt.Println("GIANT-OK")
	}
	os.Exit(0)
}

// giant runs a call on n bytes; done is false when it was given up.
func giant(name string, n int, memory uint64, wait time.Duration) (out string, done bool) {
	ctx, cancel := context.WithTimeout(context.Background(), wait)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0])
	cmd.Env = append(os.Environ(), fmt.Sprintf("MC_GIANT=%s/%d/%d", name, n, memory))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
				beat()
			}
		}
	}()
	b, _ := cmd.CombinedOutput()
	close(stop)
	return string(b), ctx.Err() == nil
}

func lastOf(s string) string {
	if i := strings.Index(s, "GIANT-BAD "); i >= 0 {
		return strings.TrimSpace(s[i+10:])
	}
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

// c01Giant: a call that wrongly takes the length modulo 2^32 is through at
// once; one that does all the work is only waited for in the thorough tier.
func c01Giant(c *Ctx) {
	lens := []int{1 << 32, 1<<32 + 1500}
	for _, n := range lens {
		n := n
		c.Case(func() string { return fmt.Sprintf("SplitP n=2 t=2 len=%d", n) }, func() string {
			wait := 1500 * time.Millisecond
			if c.thorough && n > 1<<32 {
				wait = 700 * time.Second
			}
			out, done := giant("SplitP", n, 0, wait)
			switch {
			case strings.Contains(out, "GIANT-BAD"):
				return lastOf(out)
			case strings.Contains(out, "GIANT-OK"):
				c.Count("giant_complete", 1)
			case done && strings.Contains(out, "GIANT-START") && strings.Contains(out, "panic:") && !strings.Contains(out, "memory"):
				return lastOf(out)
			default:
				c.Count("giant_given_up", 1)
			}
			c.Distinct(hash("giant", n))
			return ""
		})
	}
}

// c09Giant: the short-shares layout has 32 bits for the length; what does not
// fit is refused (before it is worked on: there is no memory for that).
func c09Giant(c *Ctx) {
	for _, name := range []string{"krawczyk.Split", "krawczyk.SplitWithRandomizer", "worker krawczyk"} {
		for _, n := range []int{1 << 32, 1<<32 + 1, 1<<33 + 5} {
			name, n := name, n
			c.Case(func() string { return fmt.Sprintf("%s of %d bytes", name, n) }, func() string {
				out, done := giant(name, n, uint64(n)+2<<30, 100*time.Second)
				c.Distinct(hash("giant", name, n))
				if strings.Contains(out, "GIANT-OK") {
					return ""
				}
				if strings.Contains(out, "GIANT-NOMEM") || !strings.Contains(out, "GIANT-START") {
					c.Note("%s of %d bytes: not run (%s)", name, n, lastOf(out))
					return ""
				}
				if !done {
					return "not refused within 100 s"
				}
				return "not refused: " + lastOf(out)
			})
		}
	}
}

// c06Giant: lengths past 2^31 (thorough only: 10 GB).
func c06Giant(c *Ctx) {
	if !c.thorough {
		return
	}
	n := 1<<31 + 5
	c.Case(func() string { return fmt.Sprintf("krawczyk.Split n=2 t=2 len=%d", n) }, func() string {
		out, done := giant("krawczyk round trip", n, 0, 600*time.Second)
		c.Distinct(hash("giant", n))
		if strings.Contains(out, "GIANT-BAD") {
			return lastOf(out)
		}
		if !done || !strings.Contains(out, "GIANT-OK") {
			c.Note("%d bytes: not finished (%s)", n, lastOf(out))
		}
		return ""
	})
}
