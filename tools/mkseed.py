import sys,subprocess,json,os
# mkseed(id, file, old, new, property, needs, what, main)
def mk(id, subs, prop, needs, what, main, extra=""):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    assert subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout=='' 
    for f,a,b in subs:
        p='/repo/'+f
        s=open(p).read()
        assert s.count(a)==1,(id,f,a,s.count(a))
        open(p,'w').write(s.replace(a,b))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.go','w').write(main)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# Runs demo.go against the library in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local
%sexec go run "$D/demo.go"
''' % extra)
    os.chmod(d+'/demo.sh',0o755)
HEAD='''package main

import (
	"bytes"
	"context"
	"fmt"
	"os"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/auto"
	"github.com/nyaosorg/go-readline-ny/simplehistory"
)

func expect(what, got, want string) {
	if got != want {
		fmt.Printf("%s: got %q, want %q\\n", what, got, want)
		os.Exit(1)
	}
}

// edit returns the accepted line and everything sent to the terminal.
func edit(prepare func(*readline.Editor), keys ...string) (string, string) {
	var out bytes.Buffer
	ed := &readline.Editor{Writer: &out, Tty: &auto.Pilot{Text: append(keys, "\\r")}}
	if prepare != nil {
		prepare(ed)
	}
	text, err := ed.ReadLine(context.Background())
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	return text, out.String()
}

func history(lines ...string) func(*readline.Editor) {
	return func(ed *readline.Editor) {
		h := simplehistory.New()
		for _, l := range lines {
			h.Add(l)
		}
		ed.History = h
	}
}

var _ = history
'''
