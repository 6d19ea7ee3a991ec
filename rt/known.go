package main

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"strings"

	config "github.com/breml/logstash-config"
)

// replayKnown replays the listed findings of a property and names those that still fail.
// A line of the file: finding: property=C09 id=NAME input="quoted" what fails
func replayKnown(file, prop string) {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l, ok := strings.CutPrefix(sc.Text(), "finding: property="+prop+" ")
		if !ok {
			continue
		}
		head, rest, _ := strings.Cut(l, " input=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		in, _ := strconv.Unquote(q)
		if stillFails(prop, in) {
			fmt.Printf("KNOWN-FINDING: property=%s %s input=%s%s\n", prop, head, q, strings.TrimPrefix(rest, q))
		}
	}
}

func stillFails(prop, in string) (fails bool) {
	defer func() {
		if e := recover(); e != nil {
			fails = true
		}
	}()
	switch prop {
	case "C09":
		o := parse(in)
		if o.err != nil {
			return false
		}
		p1 := o.conf.String()
		o2 := parse(p1)
		if o2.err != nil {
			return true
		}
		do := dumpOpt{com: true}
		return dump(convConfig(o.conf), do) != dump(convConfig(o2.conf), do) || o2.conf.String() != p1
	case "C22":
		a := parse(in, config.ExceptionalCommentsWarning(true))
		b := parse(in, config.ExceptionalCommentsWarning(true), config.Memoize(true))
		return fmt.Sprint(a.conf.Warnings) != fmt.Sprint(b.conf.Warnings)
	}
	return false
}
