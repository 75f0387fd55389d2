#!/usr/bin/env python3
"""Makes the planted bugs of /verif/seeded from their descriptions in seeds.py (edits of non-test sources plus a
demonstration), keeping one only when, in a scratch copy of /repo, its patch applies, the tree builds, the stable tests
pass, and its demonstration succeeds without the patch and fails with it.
usage: mkseeds.py [ID...]"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds, seeds2, seeds3, seeds4, seeds5
OUT = os.path.join(os.path.dirname(HERE), 'seeded')

DEMO_SH = '''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go" "$tmp/main.go"
cat > "$tmp/go.mod" <<X
module demo
go 1.21
require github.com/forsyth/jsonpath v0.0.0
replace github.com/forsyth/jsonpath => $repo
X
cp "$repo/go.sum" "$tmp/"
cd "$tmp" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
(cd "$repo" && GOFLAGS= go build -o "$tmp/jpath" ./cmd/jpath) || exit 3
go build RACE -o demo main.go || exit 3
timeout 120 ./demo
'''

HEAD = '''package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/forsyth/jsonpath"
)

var _ = bytes.NewBuffer
var _ = exec.Command
var _ = strings.Repeat
var _ sync.Mutex
var _ = time.Now
var _ = runtime.NumGoroutine
var bad bool

func parse(s string) (v interface{}) {
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		panic(err)
	}
	return v
}

func eval(path string, doc interface{}) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = fmt.Sprint("panic: ", e)
		}
	}()
	p, err := jsonpath.Compile(path)
	if err != nil {
		return "rejected"
	}
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- fmt.Sprint("panic: ", e)
			}
		}()
		vs, err := p.Eval(doc)
		if err != nil {
			done <- "error"
			return
		}
		b, err := json.Marshal(vs)
		if err != nil {
			done <- "unprintable"
			return
		}
		done <- string(b)
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(20 * time.Second):
		return "hang"
	}
}

func want(path, doc, exp string) {
	if got := eval(path, parse(doc)); got != exp {
		fmt.Printf("%s on %.200s: got %.300s, want %.300s\\n", path, doc, got, exp)
		bad = true
	}
}

// jpath runs the command, returning output, messages and exit code.
func jpath(in string, args ...string) (string, string, int) {
	cmd := exec.Command("./jpath", args...)
	cmd.Stdin = strings.NewReader(in)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	code := 0
	if err != nil {
		code = 1
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		}
	}
	return o.String(), e.String(), code
}

func check(ok bool, msg string, args ...interface{}) {
	if !ok {
		fmt.Printf(msg+"\\n", args...)
		bad = true
	}
}

func main() {
	demo()
	if bad {
		os.Exit(1)
	}
}

func demo() {
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def make(b):
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        repo = d + '/repo'
        sh(f'cp -a /repo {repo}', '/')
        sh('git checkout -q -- . && git clean -qfd', repo)
        for f, old, new in b['edits']:
            p = f'{repo}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return f'edit of {f}: {s.count(old)} matches of {old!r}'
            open(p, 'w').write(s.replace(old, new))
        r = sh('gofmt -l mach paths cmd *.go', repo)
        if r.stdout.strip():
            sh('gofmt -w ' + ' '.join(f for f, _, _ in b['edits']), repo)
        patch = sh('git diff', repo).stdout
        # lines removed must be the original's
        base = sh('git rev-list --max-parents=0 HEAD', repo).stdout.split()[-1]
        own = 0    # changed lines of the original: removed ones, or the neighbours of added ones
        for m in re.finditer(r'^--- a/(.*)$|^@@ -(\d+)(?:,(\d+))?', sh('git diff -U0', repo).stdout, re.M):
            if m.group(1):
                f = m.group(1)
                continue
            at, n = int(m.group(2)), int(m.group(3) or 1)
            lo, hi = (at, at + n - 1) if n else (at, at + 1)
            own += sh(f'git blame -l -s -L {max(lo, 1)},{hi} HEAD -- {f}', repo).stdout.count(base[:39])
        if own == 0:
            return 'changes no line of the original repository'
        dd = d + '/seed'
        os.mkdir(dd)
        open(dd + '/patch.diff', 'w').write(patch)
        head = HEAD
        for pk in ('mach', 'paths'):
            if pk + '.' in b['demo'] + b.get('more', ''):
                head = head.replace('\t"github.com/forsyth/jsonpath"\n', '\t"github.com/forsyth/jsonpath"\n\t"github.com/forsyth/jsonpath/%s"\n' % pk)
        open(dd + '/demo.go', 'w').write(head + b['demo'] + '\n}\n' + b.get('more', ''))
        sh('gofmt -w demo.go', dd)
        open(dd + '/demo.sh', 'w').write(DEMO_SH.replace(' RACE', ' -race' if b.get('race') else ''))
        os.chmod(dd + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(dd + '/meta.json', 'w'), indent=1)
        r = sh('. /opt/vp/env.sh; go vet ./mach ./paths ./cmd/jpath . && go build ./... && go test ./... 2>&1', repo, timeout=300)
        if r.returncode:
            return 'build or tests fail with the patch:\n' + r.stdout[-1500:]
        r = sh(f'bash {dd}/demo.sh', repo, timeout=300)
        if r.returncode == 0 or r.returncode == 3:
            return f'demo exit {r.returncode} with the patch\n' + r.stdout[-1500:]
        msg = r.stdout.strip().splitlines()[:2]
        sh('git checkout -q -- .', repo)
        if sh(f'git apply --check {dd}/patch.diff', repo).returncode:
            return 'patch does not apply'
        r = sh(f'bash {dd}/demo.sh', repo, timeout=300)
        if r.returncode:
            return f'demo exit {r.returncode} without the patch\n' + r.stdout[-1500:]
        dst = f'{OUT}/{b["id"]}'
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(dd, dst)
        return 'ok   ' + ' | '.join(msg)[:160]
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    os.makedirs(OUT, exist_ok=True)
    from concurrent.futures import ThreadPoolExecutor
    sel = [b for b in seeds.SEEDS if len(sys.argv) < 2 or b['id'] in sys.argv[1:]]
    with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for b, r in zip(sel, ex.map(make, sel)):
            print(b['id'], b['prop'], r, flush=True)
