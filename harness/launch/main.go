// launch configures the launcher (or its pipelines) from random environments
// and options, uses the result against backends on the loopback interface,
// and writes what was asked for and what was seen, one program per line, for
// validation against spec/Launcher.tla.  Every program runs in a process of
// its own, since it sets the environment and global providers.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type M = map[string]any

func main() {
	fams := flag.String("fam", "launch", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 1000, "programs")
	secs := flag.Float64("secs", 10, "time limit")
	outp := flag.String("out", "launch.ndjson", "")
	par := flag.Int("par", 5, "programs at a time")
	one := flag.Bool("one", false, "run one program in this process")
	flag.Parse()
	if *one {
		child(*fams, *seed)
		return
	}
	f, err := os.Create(*outp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	bw := bufio.NewWriterSize(f, 1<<20)
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	fl := strings.Split(*fams, ",")
	var mu sync.Mutex
	progs, next := 0, 0
	var wg sync.WaitGroup
	for k := 0; k < *par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= *n || time.Now().After(deadline) {
					return
				}
				s := *seed*1000003 + int64(i)
				line := spawn(fl[i%len(fl)], s)
				mu.Lock()
				bw.Write(line)
				bw.WriteByte('\n')
				progs++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	bw.Flush()
	f.Close()
	fmt.Fprintf(os.Stderr, "{\"programs\":%d}\n", progs)
}

// spawn runs one program; a process that dies is a trace that says so.
func spawn(fam string, seed int64) []byte {
	dir, err := os.MkdirTemp("", "launch")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(os.Args[0], "-one", "-fam", fam, "-seed", strconv.FormatInt(seed, 10))
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "OTEL_") && !strings.HasPrefix(e, "LS_") && !strings.HasPrefix(e, "SSL_CERT") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "TMPDIR="+dir)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	for _, l := range bytes.Split(so.Bytes(), []byte("\n")) {
		if bytes.HasPrefix(l, []byte(`{"cfg":`)) && json.Valid(l) && err == nil {
			return l
		}
	}
	msg := se.String()
	if len(msg) > 1500 {
		msg = msg[:1500]
	}
	b, _ := json.Marshal(M{"cfg": M{}, "fam": fam, "seed": seed, "ev": []M{{"e": "died", "what": fmt.Sprint(err), "stderr": msg}}})
	return b
}
