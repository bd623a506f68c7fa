#!/usr/bin/env python3
"""Writes the helper file of the demonstrations (lib_test.go): keys, makers of
genuine objects and an in-memory network, taken from the harness."""
import re, sys, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness")


def body(name, drop):
    s = open(os.path.join(H, name)).read()
    s = re.sub(r"^package .*\n", "", s, count=1)
    imports = re.search(r"^import \((.*?)^\)\n", s, re.S | re.M)
    s = s.replace(imports.group(0), "")
    for d in drop:
        s = re.sub(r"(^//[^\n]*\n)*^func (\([^)]*\) )?%s\(.*?^}\n" % d, "", s, flags=re.S | re.M)
    return s, imports.group(1)


w, wi = body("world_test.go", ["drawWorld", "drawRoot", "init"])
n, ni = body("net_test.go", [])
f, fi = body("fill_test.go", [])
k, ki = body("cli_test.go", [])
x, xi = body("cert_test.go", ["drawShape"])
w = re.sub(r"//go:embed.*\nvar rsaKeysPEM.*\n", "", w)
imps = sorted(set(l.strip() for l in (wi + ni + fi + ki + xi + '\n"path/filepath"\n').split("\n") if l.strip() and "rapid" not in l and "embed" not in l))
glue = '''
type Case struct {
	t    *testing.T
	head map[string]string
}

func (c *Case) Errorf(f string, a ...any) { c.t.Helper(); c.t.Errorf(f, a...) }

func (c *Case) Failed() bool { return c.t.Failed() }

var workDir string

func TestMain(m *testing.M) {
	var err error
	if workDir, err = os.MkdirTemp("", "demo"); err != nil {
		panic(err)
	}
	raw, err := os.ReadFile(filepath.Join(os.Getenv("DEMO_DIR"), "rsa_keys.pem"))
	if err != nil {
		panic(err)
	}
	for {
		var b *pem.Block
		if b, raw = pem.Decode(raw); b == nil {
			break
		}
		k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
		if err != nil {
			panic(err)
		}
		rsaPool = append(rsaPool, k)
	}
	code := m.Run()
	os.RemoveAll(workDir)
	os.Exit(code)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// bubble runs fn in virtual time, starting at the given minute and second of an hour.
func bubble(t *testing.T, minute, second int, fn func()) {
	t.Helper()
	synctest.Test(t, func(*testing.T) {
		time.Sleep(time.Duration(minute)*time.Minute + time.Duration(second)*time.Second)
		fn()
		synctest.Wait()
	})
}
'''
sys.stdout.write("//go:build go1.25\n\npackage demo\n\nimport (\n%s\n)\n" % "\n".join("\t" + i for i in imps) + glue + w + n + f + k + x)
