package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"strings"

	"mc/eng"
	"mc/impl"
	"mc/model"
)

func cmp(text string, neo, expr bool, m model.Mask) string {
	var r *impl.Result
	var t *model.Node
	var e *model.Error
	if expr {
		r = impl.ParseExpr(text)
		t, e = model.ParseExpr(text)
	} else {
		r = impl.Parse(text, neo)
		t, e = model.Parse(text, neo)
	}
	switch r.Kind() {
	case "tree":
		if e != nil {
			return fmt.Sprintf("impl tree\n%s model error %v", model.Dump(r.Tree, m), e)
		}
		if !model.Equal(r.Tree, t, m) {
			return "impl:\n" + model.Dump(r.Tree, m) + "model:\n" + model.Dump(t, m)
		}
	case "error":
		if e == nil {
			return fmt.Sprintf("impl error %v\nmodel tree\n%s", r.Err, model.Dump(t, m))
		}
		if *e != *r.Err {
			return fmt.Sprintf("impl error %v\nmodel error %v", r.Err, e)
		}
	default:
		return fmt.Sprintf("impl %s %v %v model %v\n%s", r.Kind(), r.Panic, r.Other, e, model.Dump(t, m))
	}
	return ""
}

func main() {
	mask := model.MAll
	if os.Getenv("STRUCT") != "" {
		mask = model.MStruct
	}
	switch os.Args[1] {
	case "files":
		for _, f := range os.Args[2:] {
			b, _ := ioutil.ReadFile(f)
			if d := cmp(string(b), strings.Contains(f, "test_neo"), false, mask); d != "" {
				if len(d) > 3000 {
					d = diff(d)
				}
				fmt.Printf("=== %s\n%s\n", f, d)
			}
		}
	case "text":
		fmt.Println(cmp(os.Args[2], false, false, mask))
		t, e := model.Parse(os.Args[2], false)
		fmt.Println(model.Dump(t, mask), e)
	case "expr":
		fmt.Println(cmp(os.Args[2], false, true, mask))
		t, e := model.ParseExpr(os.Args[2])
		fmt.Println(model.Dump(t, mask), e)
	case "seq": // seq N mode words...
		n := int(os.Args[2][0] - '0')
		w := os.Args[4:]
		sp := eng.Seq(w, "", 0, n)
		bad := 0
		for i := 0; i < sp.Len(); i++ {
			x := sp.At(i)
			if d := cmp(x, false, os.Args[3] == "expr", mask); d != "" {
				bad++
				if bad < 15 {
					fmt.Printf("=== %q\n%s\n", x, d)
				}
			}
		}
		fmt.Println(sp.Len(), "cases", bad, "bad")
	}
}

func diff(d string) string {
	i := strings.Index(d, "model:\n")
	if i < 0 {
		return d[:3000]
	}
	a, b := strings.Split(d[:i], "\n"), strings.Split(d[i:], "\n")
	out := ""
	n := 0
	for k := 1; k < len(a) && k < len(b); k++ {
		if a[k] != b[k] {
			out += a[k] + "\n" + b[k] + "\n"
			if n++; n > 6 {
				break
			}
		}
	}
	return out
}
