package spec

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"time"
)

// Result of a native contract run.
type Result struct {
	Runs, Useful int
	Failure      *Failure
	Input        []string
	Seed         int64
}

// Run executes a contract function on generated inputs against the real code.
func Run(f interface{}, seed int64, budget time.Duration, maxRuns int) Result {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	res := Result{}
	start := time.Now()
	for i := 0; i < maxRuns && time.Since(start) < budget; i++ {
		s := seed*1000003 + int64(i)
		Rand = rand.New(rand.NewSource(s))
		Reset()
		res.Runs++
		args := make([]reflect.Value, ft.NumIn())
		var in []string
		for j := range args {
			args[j] = Gen(ft.In(j), 0)
			in = append(in, fmt.Sprintf("arg%d %s = %s", j, ft.In(j), Dump(args[j].Interface())))
		}
		fail, skipped := call(fv, args)
		if !skipped {
			res.Useful++
		}
		if fail != nil {
			res.Failure = fail
			res.Input = append(in, Trace...)
			res.Seed = s
			return res
		}
	}
	return res
}

var verbose = os.Getenv("VERIF_NATIVE_DEBUG") != ""

func call(fv reflect.Value, args []reflect.Value) (fail *Failure, skipped bool) {
	type out struct {
		f *Failure
		s bool
	}
	ch := make(chan out, 1)
	go func() {
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
				ch <- out{}
			case Done:
				ch <- out{}
			case Skip:
				ch <- out{nil, true}
			case Failure:
				ch <- out{&r, false}
			default:
				ch <- out{&Failure{Label: "no-panic", Msg: fmt.Sprint(r)}, false}
			}
		}()
		fv.Call(args)
	}()
	select {
	case o := <-ch:
		return o.f, o.s
	case <-time.After(5 * time.Second):
		return &Failure{Label: "terminates", Msg: "no return within 5s"}, false
	}
}
