package cli

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

const petstore = "https://petstore.swagger.io/v2/swagger.json"

// port8080 waits until nothing listens on the command's port.
func port8080() {
	for i := 0; i < 600; i++ {
		l, err := net.Listen("tcp", ":8080")
		if err == nil {
			l.Close()
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	fmt.Println("panic: port 8080, which the command serves on, is taken")
	os.Exit(2)
}

// dist is an archive with the given files in its dist folder, next to others.
func dist(path, top string, files map[string]string, extra bool) {
	f, err := os.Create(path)
	must(err)
	w := zip.NewWriter(f)
	add := func(name, text string) {
		e, err := w.Create(name)
		must(err)
		_, err = e.Write([]byte(text))
		must(err)
	}
	if extra {
		add(top+"/README.md", "read me")
		add(top+"/docs/index.html", "not this page")
	}
	for _, n := range pbt.SortedKeys(files) {
		add(top+"/dist/"+n, files[n])
	}
	if extra {
		add(top+"/src/a.js", "not this either")
	}
	must(w.Close())
	must(f.Close())
}

type reply struct {
	what   string
	status int
	body   string
	err    error
}

func TestP34(t *testing.T) {
	client := &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	pbt.Run(t, "served", pbt.Opt{Quick: 150, Rule: "eight or more requests overlap, three of them for the document"}, func(c *pbt.C) {
		dir, done := pbt.Scratch()
		defer done()
		sc := sgen.New(c.T, options())
		sc.Name = sgen.Pick(c.T, "model", []string{"api", "theApi", "my_api"})
		m, err := sadl.NewModel(sgen.Clone(sc))
		must(err)
		var want interface{}
		err = attempt(func() error {
			doc, err := openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
			if err == nil {
				must(json.Unmarshal([]byte(pbt.JSON(doc)), &want))
			}
			return err
		})
		if err != nil {
			c.T.Skip("no OpenAPI for it: " + err.Error())
		}
		write(filepath.Join(dir, "model.json"), pbt.JSON(sc))
		version, env := "v3.43.0", []string{}
		if rapid.Bool().Draw(c.T, "release") {
			version = sgen.Pick(c.T, "version", []string{"v3.43.0", "v4.1.0"})
			env = append(env, "SWAGGER_RELEASE="+version)
		}
		files := map[string]string{
			"index.html":    "<html>\n" + sgen.Pick(c.T, "before", []string{"", "<!-- é -->\n"}) + "url: \"" + petstore + "\",\n</html>\n",
			"swagger-ui.js": strings.Repeat("x = 1;\n", rapid.IntRange(1, 20000).Draw(c.T, "size")),
		}
		if rapid.Bool().Draw(c.T, "more") {
			files["css/a b.css"] = "body {}"
			files["empty.txt"] = ""
		}
		home := filepath.Join(dir, "home")
		cache := filepath.Join(home, "Downloads")
		if rapid.Bool().Draw(c.T, "cache") {
			cache = filepath.Join(dir, "cache")
			env = append(env, "DOWNLOAD_DIRECTORY="+cache)
		}
		must(os.MkdirAll(cache, 0755))
		dist(filepath.Join(cache, version+".zip"), "swagger-ui-"+version[1:], files, rapid.Bool().Draw(c.T, "other files"))

		// the requests, in groups of which all overlap
		type request struct{ what, path string }
		all := []request{{"doc", "/" + sc.Name + ".json"}, {"index", "/"}, {"index", "/index.html"}, {"swagger-ui.js", "/swagger-ui.js"}, {"none", "/nothing.html"}}
		if len(files) > 2 {
			all = append(all, request{"css/a b.css", "/css/a%20b.css"}, request{"empty.txt", "/empty.txt"})
		}
		var groups [][]request
		for i := rapid.IntRange(1, 4).Draw(c.T, "groups"); i > 0; i-- {
			var g []request
			docs := 0
			for j := rapid.IntRange(1, 16).Draw(c.T, "requests"); j > 0; j-- {
				r := all[0]
				if rapid.Bool().Draw(c.T, "any") {
					r = all[rapid.IntRange(0, len(all)-1).Draw(c.T, "request")]
				}
				if r.what == "doc" {
					docs++
				}
				g = append(g, r)
			}
			c.NonTrivial(len(g) >= 8 && docs >= 3)
			groups = append(groups, g)
		}
		c.Case("%v %d files\n%v\n%s", env, len(files), groups, pbt.JSON(sc))

		port8080()
		cmd := exec.Command(binary, "-g", "swagger-ui", filepath.Join(dir, "model.json"))
		cmd.Dir = dir
		cmd.Env = append([]string{"PATH=" + dir, "HOME=" + home, "TMPDIR=" + dir}, env...) // there is no browser to open
		var log bytes.Buffer
		cmd.Stdout, cmd.Stderr = &log, &log
		must(cmd.Start())
		ended := make(chan error, 1)
		go func() { ended <- cmd.Wait() }()
		defer func() {
			cmd.Process.Kill()
			<-ended
		}()
		up := false
		for start := time.Now(); !up && time.Since(start) < 30*time.Second; {
			select {
			case err := <-ended:
				ended <- err
				c.Fatalf("the command ends: %v %s", err, clip(log.String()))
			default:
			}
			if conn, err := net.DialTimeout("tcp", "127.0.0.1:8080", time.Second); err == nil {
				conn.Close()
				up = true
			} else {
				time.Sleep(5 * time.Millisecond)
			}
		}
		c.Check(up, "nothing listens on port 8080")
		for _, g := range groups {
			replies := make([]reply, len(g))
			var wg sync.WaitGroup
			start := make(chan bool)
			for i, r := range g {
				wg.Add(1)
				go func(i int, r request) {
					defer wg.Done()
					<-start
					replies[i] = reply{what: r.what}
					res, err := client.Get("http://127.0.0.1:8080" + r.path)
					if err != nil {
						replies[i].err = err
						return
					}
					b, err := io.ReadAll(res.Body)
					res.Body.Close()
					replies[i].status, replies[i].body, replies[i].err = res.StatusCode, string(b), err
				}(i, r)
			}
			close(start)
			wg.Wait()
			for _, r := range replies {
				c.Check(r.err == nil, "%s, among %d requests: %v", r.what, len(g), r.err)
				if r.what == "none" {
					c.Check(r.status == 404, "a file that does not exist: %d %s", r.status, clip(r.body))
					continue
				}
				c.Check(r.status == 200, "%s: %d %s", r.what, r.status, clip(r.body))
				switch r.what {
				case "doc":
					var got interface{}
					err := json.Unmarshal([]byte(r.body), &got)
					c.Check(err == nil && reflect.DeepEqual(got, want), "among %d requests, the document is (%v)\n%s\nand not\n%s", len(g), err, clip(r.body), clip(pbt.JSON(want)))
				case "index":
					w := strings.Replace(files["index.html"], petstore, sc.Name+".json", 1)
					c.Check(r.body == w, "the page is %q and not %q", clip(r.body), clip(w))
				default:
					c.Check(r.body == files[r.what], "%s is served as %q and not %q", r.what, clip(r.body), clip(files[r.what]))
				}
			}
		}
	})
}
