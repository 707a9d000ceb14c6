#!/usr/bin/env python3
"""mkdemo.py ID PROP 'what it needs' 'what it breaks' < body.go: writes demo.sh, demo.go and meta.json of a planted bug.

The body is the main function; it uses parse, search and expect."""
import json, os, subprocess, sys
sid, prop, needs, breaks = sys.argv[1:5]
body = sys.stdin.read()
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
open(f"{d}/demo.sh", "w").write("""#!/bin/bash
# Exit 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -modfile=$t/go.mod" TZ=UTC
cp go.mod go.sum "$t"
printf '{"Replace":{"%s/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$d" > "$t/overlay.json"
go run -overlay "$t/overlay.json" ./zzdemo FLAGS
rc=$?
rm -rf "$t"
exit $rc
""".replace(" FLAGS", ""))
os.chmod(f"{d}/demo.sh", 0o755)
imports = ["fmt", "os", "time"]
for i in ("strings", "sync", "slices"):
    if i + "." in body:
        imports.append(i)
src = "package main\n\nimport (\n" + "".join(f'\t"{i}"\n' for i in sorted(imports)) + """
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

type C = dps.Configuration

var bad bool

func show(dt date.Date, err error) string {
	if err != nil {
		return "error"
	}
	return dt.Time.Format("2006-01-02T15:04:05.999999999-07:00") + " " + dt.Period.String() + " " + dt.Locale
}

func parse(cfg *C, s string, layouts ...string) string { return show(dps.Parse(cfg, s, layouts...)) }

func expect(name string, got, want any) {
	if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
		fmt.Printf("%s: got %s, want %s\\n", name, g, w)
		bad = true
	}
}

func at(s string) time.Time {
	t, err := time.Parse(time.RFC3339, s)
	if err != nil {
		panic(err)
	}
	return t
}

var _ = at
var _ = parse

func main() {
""" + body + """
	if bad {
		os.Exit(1)
	}
}
"""
open(f"{d}/demo.go", "w").write(src)
subprocess.run(["/opt/veriftools/go1.24.13/bin/gofmt", "-w", f"{d}/demo.go"], check=True)
