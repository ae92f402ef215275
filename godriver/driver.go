package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net/url"
	"os"

	"github.com/dask/dask-gateway/dask-gateway-proxy/pkg/router"
)

type vM = map[string]any

var vRouter *router.Router
var vOps = map[string]func(r vM) vM{}

func vTarget(i int) *url.URL { return &url.URL{Scheme: "http", Host: fmt.Sprintf("t%d", i)} }

func init() {
	if os.Getenv("VERIF_DRIVER") == "" {
		return
	}
	vOps["router-new"] = func(r vM) vM { vRouter = router.NewRouter(); return vM{} }
	vOps["router-put"] = func(r vM) vM { vRouter.Put(vStr(r["path"]), vTarget(int(r["target"].(float64)))); return vM{} }
	vOps["router-delete"] = func(r vM) vM { vRouter.Delete(vStr(r["path"])); return vM{} }
	vOps["router-has"] = func(r vM) vM { return vM{"found": vRouter.HasMatch(vStr(r["path"]))} }
	vOps["router-match"] = func(r vM) vM {
		u, rest := vRouter.Match(vStr(r["path"]))
		if u == nil {
			return vM{"found": false, "rest": rest}
		}
		var n int
		fmt.Sscanf(u.Host, "t%d", &n)
		return vM{"found": true, "target": n, "rest": rest}
	}
}

// strings are sent as text whose characters are bytes
func vStr(v any) string {
	out := []byte{}
	for _, c := range v.(string) {
		out = append(out, byte(c))
	}
	return string(out)
}

func vText(s string) string {
	out := []rune{}
	for i := 0; i < len(s); i++ {
		out = append(out, rune(s[i]))
	}
	return string(out)
}

func vMain() {
	in := bufio.NewReader(os.Stdin)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var r vM
		if err := json.Unmarshal(line, &r); err != nil {
			panic(err)
		}
		f := vOps[r["op"].(string)]
		if f == nil {
			panic("unknown request")
		}
		b, err := json.Marshal(f(r))
		if err != nil {
			panic(err)
		}
		os.Stdout.Write(append(b, '\n'))
	}
}
