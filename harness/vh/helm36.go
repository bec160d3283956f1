package main

import (
	"bytes"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"text/template"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zverif/fakemongo"
	"github.com/takenet/deckard/internal/zverif/fakeredis"
	"github.com/takenet/deckard/internal/zverif/vk"
	"go.yaml.in/yaml/v3"
	grpchealth "google.golang.org/grpc/health/grpc_health_v1"
)

// C36: the Helm chart, rendered the way Helm does, and its containers run.

type helmCase struct {
	Release string
	Values  map[string]any
	Why     string `json:",omitempty"` // not empty: the chart has to refuse these values
	Run     bool
	Seed    uint64
}

func helmFail(k, f string, a ...any) *mismatch { return mm(k, nil, []string{"C36"}, f, a...) }

// ---- rendering ----

type dict = map[string]any

func merge(base, over dict) dict {
	out := dict{}
	for k, v := range base {
		out[k] = v
	}
	for k, v := range over {
		if b, ok := out[k].(dict); ok {
			if o, ok := v.(dict); ok {
				out[k] = merge(b, o)
				continue
			}
		}
		if v == nil {
			delete(out, k)
			continue
		}
		out[k] = v
	}
	return out
}

type helmRefusal struct{ msg string }

func (e helmRefusal) Error() string { return e.msg }

func empty(v any) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Map, reflect.Slice, reflect.String, reflect.Array:
		return r.Len() == 0
	case reflect.Bool:
		return !r.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32:
		return r.Int() == 0
	case reflect.Float64:
		return r.Float() == 0
	}
	return false
}

func helmString(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case []byte:
		return string(x)
	case error:
		return x.Error()
	case fmt.Stringer:
		return x.String()
	}
	return fmt.Sprintf("%v", v)
}

func toInt(v any) int {
	switch x := v.(type) {
	case int:
		return x
	case int64:
		return int(x)
	case float64:
		return int(x)
	case bool:
		if x {
			return 1
		}
		return 0
	}
	n, _ := strconv.Atoi(fmt.Sprint(v))
	return n
}

func helmFuncs(t **template.Template) template.FuncMap {
	indent := func(n int, s string) string {
		p := strings.Repeat(" ", n)
		return p + strings.ReplaceAll(s, "\n", "\n"+p)
	}
	quoteWith := func(q func(string) string) func(v ...any) string {
		return func(v ...any) string {
			var out []string
			for _, x := range v {
				if x != nil {
					out = append(out, q(helmString(x)))
				}
			}
			return strings.Join(out, " ")
		}
	}
	mk := func(v ...any) dict {
		d := dict{}
		for i := 0; i < len(v); i += 2 {
			if i+1 < len(v) {
				d[helmString(v[i])] = v[i+1]
			} else {
				d[helmString(v[i])] = ""
			}
		}
		return d
	}
	exec := func(name string, data any) (string, error) {
		var b strings.Builder
		err := (*t).ExecuteTemplate(&b, name, data)
		return b.String(), err
	}
	return template.FuncMap{
		"default": func(d any, g ...any) any {
			if len(g) == 0 || empty(g[0]) {
				return d
			}
			return g[0]
		},
		"empty": empty,
		"coalesce": func(v ...any) any {
			for _, x := range v {
				if !empty(x) {
					return x
				}
			}
			return nil
		},
		"ternary": func(a, b any, c bool) any {
			if c {
				return a
			}
			return b
		},
		"trunc": func(n int, s string) string {
			if n < 0 && len(s)+n > 0 {
				return s[len(s)+n:]
			}
			if n >= 0 && len(s) > n {
				return s[:n]
			}
			return s
		},
		"trimSuffix": func(a, s string) string { return strings.TrimSuffix(s, a) },
		"trimPrefix": func(a, s string) string { return strings.TrimPrefix(s, a) },
		"trimAll":    func(a, s string) string { return strings.Trim(s, a) },
		"trim":       strings.TrimSpace,
		"upper":      strings.ToUpper,
		"lower":      strings.ToLower,
		"contains":   func(a, s string) bool { return strings.Contains(s, a) },
		"hasPrefix":  func(a, s string) bool { return strings.HasPrefix(s, a) },
		"hasSuffix":  func(a, s string) bool { return strings.HasSuffix(s, a) },
		"replace":    func(o, n, s string) string { return strings.ReplaceAll(s, o, n) },
		"regexReplaceAll": func(e, s, n string) string {
			return regexp.MustCompile(e).ReplaceAllString(s, n)
		},
		"quote":    quoteWith(strconv.Quote),
		"squote":   quoteWith(func(s string) string { return "'" + s + "'" }),
		"toString": helmString,
		"int":      toInt,
		"int64":    func(v any) int64 { return int64(toInt(v)) },
		"add": func(v ...any) (n int64) {
			for _, x := range v {
				n += int64(toInt(x))
			}
			return
		},
		"cat": func(v ...any) string { return strings.TrimSpace(fmt.Sprintln(v...)) },
		"join": func(s string, v any) string {
			r := reflect.ValueOf(v)
			var o []string
			for i := 0; r.IsValid() && i < r.Len(); i++ {
				o = append(o, helmString(r.Index(i).Interface()))
			}
			return strings.Join(o, s)
		},
		"b64enc": func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) },
		"dict":   mk,
		"list":   func(v ...any) []any { return v },
		"get": func(d dict, k string) any {
			if v, ok := d[k]; ok {
				return v
			}
			return ""
		},
		"set":    func(d dict, k string, v any) dict { d[k] = v; return d },
		"hasKey": func(d dict, k string) bool { _, ok := d[k]; return ok },
		"merge": func(d dict, s ...dict) dict {
			for _, x := range s {
				for k, v := range merge(x, d) {
					d[k] = v
				}
			}
			return d
		},
		"mergeOverwrite": func(d dict, s ...dict) dict {
			for _, x := range s {
				for k, v := range merge(d, x) {
					d[k] = v
				}
			}
			return d
		},
		"omit": func(d dict, ks ...string) dict {
			o := merge(d, nil)
			for _, k := range ks {
				delete(o, k)
			}
			return o
		},
		"dig": func(v ...any) any {
			cur := v[len(v)-1]
			for _, k := range v[:len(v)-2] {
				m, ok := cur.(dict)
				if !ok {
					return v[len(v)-2]
				}
				if cur, ok = m[helmString(k)]; !ok {
					return v[len(v)-2]
				}
			}
			return cur
		},
		"kindIs": func(k string, v any) bool { return v != nil && reflect.TypeOf(v).Kind().String() == k },
		"kindOf": func(v any) string {
			if v == nil {
				return "invalid"
			}
			return reflect.TypeOf(v).Kind().String()
		},
		"typeIs":  func(k string, v any) bool { return fmt.Sprintf("%T", v) == k },
		"indent":  indent,
		"nindent": func(n int, s string) string { return "\n" + indent(n, s) },
		"toYaml": func(v any) string {
			var b bytes.Buffer
			e := yaml.NewEncoder(&b)
			e.SetIndent(2)
			if e.Encode(v) != nil {
				return ""
			}
			return strings.TrimSuffix(b.String(), "\n")
		},
		"toJson":        func(v any) string { b, _ := json.Marshal(v); return string(b) },
		"semverCompare": func(c, v string) bool { return true },
		"fail":          func(m string) (string, error) { return "", helmRefusal{m} },
		"required": func(m string, v any) (any, error) {
			if v == nil || v == "" {
				return v, helmRefusal{m}
			}
			return v, nil
		},
		"include": exec,
		"tpl": func(s string, data any) (string, error) {
			c, err := (*t).Clone()
			if err != nil {
				return "", err
			}
			if c, err = c.New("tpl").Parse(s); err != nil {
				return "", err
			}
			var b strings.Builder
			err = c.Execute(&b, data)
			return b.String(), err
		},
		"lookup": func(...string) dict { return dict{} },
	}
}

type chart struct {
	t      *template.Template
	names  []string
	values dict
	meta   dict
}

func loadChart(dir string) (*chart, error) {
	h := &chart{values: dict{}, meta: dict{}}
	for f, into := range map[string]*dict{"values.yaml": &h.values, "Chart.yaml": &h.meta} {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return nil, err
		}
		if err := yaml.Unmarshal(b, into); err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
	}
	up := dict{}
	for k, v := range h.meta {
		up[strings.ToUpper(k[:1])+k[1:]] = v
	}
	h.meta = up
	h.t = template.New("chart").Option("missingkey=zero")
	h.t.Funcs(helmFuncs(&h.t))
	files, _ := filepath.Glob(filepath.Join(dir, "templates", "*"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		n := filepath.Base(f)
		if _, err := h.t.New(n).Parse(string(b)); err != nil {
			return nil, err
		}
		if !strings.HasPrefix(n, "_") {
			h.names = append(h.names, n)
		}
	}
	return h, nil
}

// render returns the objects of the release.
func (h *chart) render(release, ns string, over dict) (objs []dict, vals dict, err error) {
	var fresh dict
	b, _ := yaml.Marshal(h.values)
	_ = yaml.Unmarshal(b, &fresh)
	vals = merge(fresh, over)
	b, _ = yaml.Marshal(vals)
	vals = dict{}
	if err = yaml.Unmarshal(b, &vals); err != nil {
		return
	}
	top := dict{
		"Values": vals, "Chart": h.meta,
		"Release":      dict{"Name": release, "Namespace": ns, "Service": "Helm", "IsInstall": true, "IsUpgrade": false, "Revision": 1},
		"Capabilities": dict{"KubeVersion": dict{"GitVersion": "v1.31.0", "Version": "v1.31.0", "Major": "1", "Minor": "31"}},
	}
	for _, n := range h.names {
		top["Template"] = dict{"Name": "deckard/templates/" + n, "BasePath": "deckard/templates"}
		var b strings.Builder
		if err = h.t.ExecuteTemplate(&b, n, top); err != nil {
			return nil, vals, err
		}
		if strings.HasSuffix(n, ".txt") {
			continue
		}
		d := yaml.NewDecoder(strings.NewReader(strings.ReplaceAll(b.String(), "<no value>", "")))
		for {
			var o dict
			err := d.Decode(&o)
			if err == io.EOF {
				break
			}
			if err != nil {
				return nil, vals, fmt.Errorf("%s is not YAML: %w", n, err)
			}
			if len(o) > 0 {
				objs = append(objs, o)
			}
		}
	}
	return
}

func at(v any, path ...any) any {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, ok := v.(dict)
			if !ok {
				return nil
			}
			v = m[k]
		case int:
			l, ok := v.([]any)
			if !ok || k >= len(l) {
				return nil
			}
			v = l[k]
		}
	}
	return v
}

func list(v any) []any { l, _ := v.([]any); return l }

func str(v any) string {
	if v == nil {
		return ""
	}
	return helmString(v)
}

// ---- what has to come out ----

var dnsLabel = regexp.MustCompile(`^[a-z0-9]([-a-z0-9]*[a-z0-9])?$`)
var labelValue = regexp.MustCompile(`^([A-Za-z0-9]([-A-Za-z0-9_.]*[A-Za-z0-9])?)?$`)

func fullName(release string, v dict, name string) string {
	if o := str(v["fullnameOverride"]); o != "" {
		return o
	}
	if o := str(v["nameOverride"]); o != "" {
		name = o
	}
	if strings.Contains(release, name) {
		return release
	}
	return release + "-" + name
}

func cut(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return strings.TrimSuffix(s, "-")
}

func subset(want, have any) bool {
	w, _ := want.(dict)
	h, _ := have.(dict)
	if len(w) == 0 {
		return false
	}
	for k, v := range w {
		if str(h[k]) != str(v) {
			return false
		}
	}
	return true
}

type pod struct {
	what string // "service" or "housekeeper"
	dep  dict
	box  dict
	env  map[string]string
	port map[string]int
}

type helmRun struct {
	c    *vk.Ctx
	k    *helmCase
	objs []dict
	v    dict
	pods map[string]*pod

	redis *fakeredis.Cluster
	mongo *fakemongo.Server
	es    *esRec
	used  map[string]bool
	given map[string]map[string]string // secrets that exist besides the chart's
}

func (x *helmRun) kind(k string) (out []dict) {
	for _, o := range x.objs {
		if str(o["kind"]) == k {
			out = append(out, o)
		}
	}
	return
}

func (x *helmRun) val(path ...any) any { return at(x.v, path...) }
func (x *helmRun) on(path ...any) bool { b, _ := at(x.v, path...).(bool); return b }

// objects judges the rendered objects themselves.
func (x *helmRun) objects() *mismatch {
	seen := map[string]bool{}
	for _, o := range x.objs {
		n := str(at(o, "metadata", "name"))
		id := str(o["kind"]) + "/" + n
		if seen[id] {
			return helmFail("twice", "%s is rendered twice", id)
		}
		seen[id] = true
		if len(n) > 63 || !dnsLabel.MatchString(n) {
			return helmFail("name", "%s is not a name Kubernetes accepts", id)
		}
		for _, where := range [][]any{{"metadata", "labels"}, {"spec", "template", "metadata", "labels"}, {"spec", "selector", "matchLabels"}} {
			ls, _ := at(o, where...).(dict)
			for k, v := range ls {
				if s := str(v); len(s) > 63 || !labelValue.MatchString(s) {
					return helmFail("label", "%s has the label %s: %q, which Kubernetes refuses", id, k, s)
				}
			}
		}
	}
	x.pods = map[string]*pod{}
	base := cut(fullName(x.k.Release, x.v, "deckard"), 50)
	want := map[string]string{base: "service"}
	if x.on("housekeeper", "enabled") {
		want[base+"-housekeeper"] = "housekeeper"
	}
	for _, d := range x.kind("Deployment") {
		n := str(at(d, "metadata", "name"))
		what, ok := want[n]
		if !ok {
			return helmFail("deployment", "a deployment %q nobody asked for (expected %v)", n, keysSorted(want))
		}
		delete(want, n)
		if !subset(at(d, "spec", "selector", "matchLabels"), at(d, "spec", "template", "metadata", "labels")) {
			return helmFail("selector", "deployment %q does not select its own pods", n)
		}
		boxes := list(at(d, "spec", "template", "spec", "containers"))
		if len(boxes) != 1 {
			return helmFail("deployment", "deployment %q has %d containers", n, len(boxes))
		}
		x.pods[what] = &pod{what: what, dep: d, box: boxes[0].(dict)}
	}
	if len(want) > 0 {
		return helmFail("deployment", "no deployment for %v", keysSorted(want))
	}
	for _, what := range []string{"service", "housekeeper"} {
		p := x.pods[what]
		if p == nil {
			continue
		}
		if m := x.podObject(p); m != nil {
			return m
		}
	}
	svcs := map[string]dict{}
	for _, s := range x.kind("Service") {
		svcs[str(at(s, "metadata", "name"))] = s
	}
	for _, what := range []string{"service", "housekeeper"} {
		n, path := base, []any{"service"}
		if what == "housekeeper" {
			n, path = base+"-housekeeper", []any{"housekeeper", "service"}
		}
		s := svcs[n]
		asked := x.on(append(path, "enabled")...)
		if asked != (s != nil) {
			return helmFail("service", "%s: service enabled %v, rendered %v", what, asked, s != nil)
		}
		if s == nil {
			continue
		}
		if a, b := str(at(s, "spec", "type")), str(x.val(append(path, "type")...)); a != b {
			return helmFail("service", "service %q has the type %q, the values say %q", n, a, b)
		}
		if a, b := str(at(s, "spec", "ports", 0, "port")), str(x.val(append(path, "port")...)); a != b {
			return helmFail("service", "service %q listens on %s, the values say %s", n, a, b)
		}
		for w, p := range x.pods {
			if got := subset(at(s, "spec", "selector"), at(p.dep, "spec", "template", "metadata", "labels")); got != (w == what) {
				return helmFail("routing", "service %q selecting the pods of the %s: %v", n, w, got)
			}
		}
		if p := x.pods[what]; p != nil {
			target := at(s, "spec", "ports", 0, "targetPort")
			tn := p.port[str(target)]
			if tn == 0 {
				tn = toInt(target)
			}
			if tn != p.port["grpc"] {
				return helmFail("routing", "service %q sends its calls to port %v of its pods; gRPC is on %d", n, target, p.port["grpc"])
			}
		}
	}
	hpas := x.kind("HorizontalPodAutoscaler")
	if asked := x.on("autoscaling", "enabled"); asked != (len(hpas) == 1) {
		return helmFail("autoscaler", "autoscaling enabled %v, rendered %d autoscalers", asked, len(hpas))
	} else if asked {
		h := hpas[0]
		if str(at(h, "spec", "scaleTargetRef", "name")) != base || str(at(h, "spec", "scaleTargetRef", "kind")) != "Deployment" {
			return helmFail("autoscaler", "the autoscaler scales %v", at(h, "spec", "scaleTargetRef"))
		}
		for _, f := range []string{"minReplicas", "maxReplicas"} {
			if a, b := str(at(h, "spec", f)), str(x.val("autoscaling", f)); a != b {
				return helmFail("autoscaler", "%s is %s, the values say %s", f, a, b)
			}
		}
		for res, f := range map[string]string{"cpu": "targetCPUUtilizationPercentage", "memory": "targetMemoryUtilizationPercentage"} {
			got := ""
			for _, e := range list(at(h, "spec", "metrics")) {
				if str(at(e, "resource", "name")) == res {
					got = str(at(e, "resource", "target", "averageUtilization"))
				}
			}
			if want := str(x.val("autoscaling", f)); got != want {
				return helmFail("autoscaler", "%s is %q, the values say %q", f, got, want)
			}
		}
	}
	if m := x.ingress(base, svcs[base]); m != nil {
		return m
	}
	for _, o := range x.kind("Secret") {
		if n := str(at(o, "metadata", "name")); !x.used[n] {
			return helmFail("secret", "the chart makes the secret %q, which no container uses", n)
		} else if x.given[n] != nil {
			return helmFail("secret", "the chart overwrites the existing secret %q", n)
		}
	}
	x.c.Count("objects", int64(len(x.objs)))
	return nil
}

func (x *helmRun) ingress(base string, svc dict) *mismatch {
	if a, b := at(svc, "metadata", "annotations"), x.val("service", "annotations"); svc != nil && !(empty(a) && empty(b)) && !reflect.DeepEqual(a, b) {
		return helmFail("passed-on", "the service has the annotations %v, the values say %v", a, b)
	}
	is := x.kind("Ingress")
	if asked := x.on("ingress", "enabled"); asked != (len(is) == 1) {
		return helmFail("ingress", "ingress enabled %v, rendered %d", asked, len(is))
	} else if !asked {
		return nil
	}
	in := is[0]
	if a, b := str(at(in, "spec", "ingressClassName")), str(x.val("ingress", "className")); a != b {
		return helmFail("ingress", "the ingress has the class %q, the values say %q", a, b)
	}
	if a, b := at(in, "metadata", "annotations"), x.val("ingress", "annotations"); !(empty(a) && empty(b)) && !reflect.DeepEqual(a, b) {
		return helmFail("ingress", "the ingress has the annotations %v, the values say %v", a, b)
	}
	if a, b := at(in, "spec", "tls"), x.val("ingress", "tls"); !(empty(a) && empty(b)) && !reflect.DeepEqual(a, b) {
		return helmFail("ingress", "the ingress has tls %v, the values say %v", a, b)
	}
	want, got := []string{}, []string{}
	for _, h := range list(x.val("ingress", "hosts")) {
		for _, p := range list(at(h, "paths")) {
			want = append(want, fmt.Sprintf("%s %s %s -> %s:%v", str(at(h, "host")), str(at(p, "path")), str(at(p, "pathType")), base, x.val("service", "port")))
		}
	}
	for _, h := range list(at(in, "spec", "rules")) {
		for _, p := range list(at(h, "http", "paths")) {
			to := at(p, "backend", "service", "port", "number")
			if n := at(p, "backend", "service", "port", "name"); n != nil && n == at(svc, "spec", "ports", 0, "name") {
				to = at(svc, "spec", "ports", 0, "port")
			}
			got = append(got, fmt.Sprintf("%s %s %s -> %s:%v", str(at(h, "host")), str(at(p, "path")), str(at(p, "pathType")), str(at(p, "backend", "service", "name")), to))
		}
	}
	if !reflect.DeepEqual(want, got) {
		return helmFail("ingress", "the ingress routes %q, the values say %q", got, want)
	}
	x.c.Count("ingresses", 1)
	return nil
}

func keysSorted(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func (x *helmRun) podObject(p *pod) *mismatch {
	n := str(at(p.dep, "metadata", "name"))
	root := x.v
	if p.what == "housekeeper" {
		root, _ = x.v["housekeeper"].(dict)
	}
	repo, tag := str(at(root, "image", "repository")), str(at(root, "image", "tag"))
	if repo == "" {
		repo = str(x.val("image", "repository"))
	}
	if tag == "" {
		tag = str(x.val("image", "tag"))
	}
	if tag == "" {
		tag = appVersion
	}
	if got := str(p.box["image"]); got != repo+":"+tag {
		return helmFail("image", "the %s runs the image %q; the values say %q", p.what, got, repo+":"+tag)
	}
	if a, b := str(p.box["imagePullPolicy"]), str(at(root, "image", "pullPolicy")); a != b {
		return helmFail("image", "the %s has the pull policy %q, the values say %q", p.what, a, b)
	}
	auto := p.what == "service" && x.on("autoscaling", "enabled")
	if rc, ok := root["replicaCount"]; ok && !auto && str(at(p.dep, "spec", "replicas")) != str(rc) {
		return helmFail("replicas", "the %s has %v replicas, the values say %v", p.what, at(p.dep, "spec", "replicas"), rc)
	} else if auto && at(p.dep, "spec", "replicas") != nil {
		return helmFail("replicas", "the service sets its replicas although it is scaled automatically")
	}
	for _, f := range []struct {
		path []any
		val  string
	}{{[]any{"spec", "template", "metadata", "annotations"}, "podAnnotations"}, {[]any{"spec", "template", "spec", "securityContext"}, "podSecurityContext"},
		{[]any{"spec", "template", "spec", "nodeSelector"}, "nodeSelector"}, {[]any{"spec", "template", "spec", "containers", 0, "resources"}, "resources"},
		{[]any{"spec", "template", "spec", "tolerations"}, "tolerations"}, {[]any{"spec", "template", "spec", "affinity"}, "affinity"},
		{[]any{"spec", "template", "spec", "imagePullSecrets"}, "imagePullSecrets"},
		{[]any{"spec", "template", "spec", "containers", 0, "securityContext"}, "securityContext"}} {
		a, b := at(p.dep, f.path...), root[f.val]
		if f.val == "imagePullSecrets" {
			b = x.val(f.val)
		}
		if !(empty(a) && empty(b)) && !reflect.DeepEqual(a, b) {
			return helmFail("passed-on", "the %s has %s %v, the values say %v", p.what, f.val, a, b)
		}
	}
	asked, _ := root["labels"].(dict)
	for k, v := range asked {
		if str(at(p.dep, "metadata", "labels", k)) != str(v) {
			return helmFail("passed-on", "deployment %q lacks the label %s: %v", n, k, v)
		}
	}
	p.port = map[string]int{}
	for _, o := range list(p.box["ports"]) {
		p.port[str(at(o, "name"))] = toInt(at(o, "containerPort"))
	}
	if a, b := p.port["grpc"], toInt(at(root, "service", "port")); a != b {
		return helmFail("port", "the container of the %s offers gRPC on %d, the values say %d", p.what, a, b)
	}
	if mp, ok := p.port["metrics"]; ok != x.on("metrics", "enabled") || ok && mp != toInt(x.val("metrics", "port")) {
		return helmFail("port", "the container of the %s offers metrics on %d; the values say enabled %v, port %v", p.what, mp, x.on("metrics", "enabled"), x.val("metrics", "port"))
	}
	for _, f := range []string{"livenessProbe", "readinessProbe", "startupProbe"} {
		pr, ok := p.box[f].(dict)
		if !ok {
			return helmFail("probe", "the %s has no %s", p.what, f)
		}
		if g := toInt(at(pr, "grpc", "port")); g != p.port["grpc"] {
			return helmFail("probe", "the %s of the %s asks port %d, gRPC is on %d", f, p.what, g, p.port["grpc"])
		}
	}
	extra, _ := root["containerPorts"].(dict)
	for k, v := range extra {
		if p.port[k] != toInt(at(v, "containerPort")) {
			return helmFail("port", "the %s lacks the port %s: %v", p.what, k, v)
		}
	}
	// Kubernetes takes the last of several entries.
	p.env = map[string]string{}
	for _, e := range list(p.box["env"]) {
		name := str(at(e, "name"))
		if ref, ok := at(e, "valueFrom", "secretKeyRef").(dict); ok {
			s, m := x.secret(str(ref["name"]), str(ref["key"]))
			if m != nil {
				return m
			}
			p.env[name] = s
			continue
		}
		if v := at(e, "value"); v != nil {
			if s, ok := v.(string); ok {
				p.env[name] = s
			} else {
				return helmFail("env", "the value of %s in the %s is the %T %v; Kubernetes accepts strings only", name, p.what, v, v)
			}
		}
	}
	more, _ := root["env"].(dict)
	for k, v := range more {
		if got, ok := p.env[k]; !ok || got != str(at(v, "value")) {
			return helmFail("env", "the %s does not get %s=%v of its env", p.what, k, at(v, "value"))
		}
	}
	return nil
}

// secret is what the cluster would hand to the container.
func (x *helmRun) secret(name, key string) (string, *mismatch) {
	if s, ok := x.given[name]; ok {
		if v, ok := s[key]; ok {
			return v, nil
		}
		return "", helmFail("secret", "the container wants the key %q of secret %q, which has %v", key, name, keysSorted(s))
	}
	for _, o := range x.kind("Secret") {
		if str(at(o, "metadata", "name")) == name {
			d, _ := o["stringData"].(dict)
			if x.used == nil {
				x.used = map[string]bool{}
			}
			x.used[name] = true
			coded, _ := o["data"].(dict)
			if b, err := base64.StdEncoding.DecodeString(str(coded[key])); err == nil && coded[key] != nil {
				d = merge(dict{key: string(b)}, d)
			}
			if v, ok := d[key]; ok {
				return str(v), nil
			}
			return "", helmFail("secret", "the container wants the key %q, the chart's secret %q has %v", key, name, d)
		}
	}
	return "", helmFail("secret", "the container wants the key %q of secret %q, which nobody creates", key, name)
}

// connect judges the back end addresses and points them at the stand-ins.
func (x *helmRun) connect(p *pod, ns string) *mismatch {
	uses := func(which, name string) bool { return str(x.val(which, "type")) == name }
	type end struct {
		env, key, chart, scheme, user, pass string
		addr                                []string
		auth, on, sub                       bool
	}
	rn, mn := cut(fullName(x.k.Release, at(x.v, "redis").(dict), "redis"), 63), cut(fullName(x.k.Release, at(x.v, "mongodb").(dict), "mongodb"), 63)
	rp, mp := x.val("redis", "service", "ports", "redis"), x.val("mongodb", "service", "ports", "mongodb")
	redisAt := []string{fmt.Sprintf("%s-master.%s.svc:%v", rn, ns, rp)}
	if str(x.val("redis", "architecture")) != "standalone" {
		redisAt = append(redisAt, fmt.Sprintf("%s-headless.%s.svc:%v", rn, ns, rp))
	}
	mongoAt := fmt.Sprintf("%s.%s.svc:%v", mn, ns, mp)
	if str(x.val("mongodb", "architecture")) != "standalone" {
		mongoAt = fmt.Sprintf("%s-headless.%s.svc:%v", mn, ns, mp)
	}
	for _, e := range []end{
		{"DECKARD_CACHE_URI", "cache", "redis", "redis", "", str(x.val("redis", "auth", "password")),
			redisAt, true, uses("cache", "REDIS"), x.on("redis", "enabled")},
		{"DECKARD_STORAGE_URI", "storage", "mongodb", "mongodb", str(x.val("mongodb", "auth", "rootUser")), str(x.val("mongodb", "auth", "rootPassword")),
			[]string{mongoAt}, x.on("mongodb", "auth", "enabled"), uses("storage", "MONGODB"), x.on("mongodb", "enabled")},
	} {
		got, set := p.env[e.env]
		if !e.on {
			if set {
				return helmFail("uri", "the %s gets %s although the %s type is %v", p.what, e.env, e.key, x.val(e.key, "type"))
			}
			continue
		}
		if !set {
			return helmFail("uri", "the %s does not get %s", p.what, e.env)
		}
		own := "redis://127.0.0.1:1"
		if e.key == "cache" {
			own = x.redis.URI()
		} else {
			own = x.mongo.URI()
		}
		if got == own { // out of a secret that was there before
			continue
		}
		u, err := url.Parse(got)
		if err != nil {
			return helmFail("uri", "%s of the %s is not a URI: %v", e.env, p.what, err)
		}
		if u.Scheme != e.scheme || !slices.Contains(e.addr, u.Host) {
			return helmFail("uri", "%s of the %s leads to %s://%s; the chart's %s is at %q", e.env, p.what, u.Scheme, u.Host, e.chart, e.addr)
		}
		pw, _ := u.User.Password()
		if _, rest, _ := strings.Cut(got, "://"); strings.Count(rest, "@") > 1 {
			return helmFail("uri", "%s of the %s holds an unescaped @: %s", e.env, p.what, got)
		}
		if e.auth && (u.User.Username() != e.user || pw != e.pass) {
			return helmFail("uri", "%s of the %s logs in as %q with %q; the values say %q, %q", e.env, p.what, u.User.Username(), pw, e.user, e.pass)
		}
		if !e.auth && u.User != nil {
			return helmFail("uri", "%s of the %s logs in as %q at a %s without users", e.env, p.what, u.User.Username(), e.chart)
		}
		if db := at(x.v, "cache", "redis", "database"); e.key == "cache" {
			if n, err := strconv.Atoi("0" + strings.Trim(u.Path, "/")); err != nil || n != toInt(db) {
				return helmFail("uri", "%s of the %s selects database %q; the values say %d", e.env, p.what, u.Path, toInt(db))
			}
		}
		p.env[e.env] = own
	}
	return nil
}

// ---- running the containers ----

const helmLimit = 60 * time.Second

func (x *helmRun) boot(p *pod) (*proc, *mismatch, bool) {
	q := &proc{port: p.port["grpc"], out: &syncBuf{}, exit: make(chan struct{})}
	q.cmd = exec.Command(binary())
	q.cmd.Dir = x.c.Dir
	q.cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + x.c.Dir}
	for _, k := range sortedKeys(p.env) {
		q.cmd.Env = append(q.cmd.Env, k+"="+p.env[k])
	}
	q.cmd.Stdout, q.cmd.Stderr = q.out, q.out
	q.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	fatal(q.cmd.Start())
	go func() { q.err = q.cmd.Wait(); q.at = time.Now(); close(q.exit) }()
	if !q.ready(helmLimit) {
		taken := q.portTaken()
		m := helmFail("start", "the container of the %s did not open its gRPC port %d: %s", p.what, q.port, q.tail(600))
		q.kill()
		return nil, m, taken
	}
	if q.portTaken() {
		q.kill()
		return nil, nil, true
	}
	return q, nil, false
}

// visit: one container from its start to its end.
func (x *helmRun) visit(p *pod, seen *helmSeen) (m *mismatch, skip bool) {
	before := x.audited()
	q, m, skip := x.boot(p)
	if m != nil || skip {
		return m, skip
	}
	defer func() {
		if m != nil && q.portTaken() {
			m, skip = nil, true
		}
		q.kill()
	}()
	var no *tls.Config
	cc, err := dialTo(q.port, no)
	fatal(err)
	defer cc.Close()
	ctx, done := within(helmLimit)
	defer done()
	hc := grpchealth.NewHealthClient(cc)
	for end := time.Now().Add(helmLimit); ; time.Sleep(20 * time.Millisecond) {
		r, err := hc.Check(ctx, &grpchealth.HealthCheckRequest{})
		if err == nil && r.Status == grpchealth.HealthCheckResponse_SERVING {
			break
		}
		if time.Now().After(end) || q.gone() {
			return helmFail("probe", "the probes of the %s never succeed: %v %v; %s", p.what, r, err, q.tail(300)), false
		}
	}
	x.c.Count("containers", 1)
	x.c.Active("helm", x.k)
	if x.on("metrics", "enabled") {
		for end := time.Now().Add(20 * time.Second); ; time.Sleep(50 * time.Millisecond) {
			if _, err = scrape(p.port["metrics"], str(x.val("metrics", "path"))); err == nil || time.Now().After(end) {
				break
			}
		}
		if err != nil {
			return helmFail("metrics", "the %s does not answer on port %d, path %v: %v; %s", p.what, p.port["metrics"], x.val("metrics", "path"), err, q.tail(300)), false
		}
		x.c.Count("scrapes", 1)
	} else if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", toInt(x.val("metrics", "port"))), time.Second); err == nil {
		c.Close()
		if _, err := scrape(toInt(x.val("metrics", "port")), str(x.val("metrics", "path"))); err == nil {
			return helmFail("metrics", "the %s offers metrics although they are disabled", p.what), false
		}
	}
	cl := deckard.NewDeckardClient(cc)
	q1 := "chart" + p.what
	if _, err = cl.Add(ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "one", Queue: q1, Timeless: true}, {Id: "two", Queue: q1, Timeless: true}}}); err != nil {
		return helmFail("call", "adding through the %s: %v; %s", p.what, err, q.tail(300)), false
	}
	if _, err = cl.EditQueue(ctx, &deckard.EditQueueRequest{Queue: q1, Configuration: &deckard.QueueConfiguration{MaxElements: 7}}); err != nil {
		return helmFail("call", "editing a queue through the %s: %v", p.what, err), false
	}
	if m := x.stored(p, q1); m != nil {
		return m, false
	}
	keeps := p.what == "housekeeper" || x.on("housekeeper", "self", "enabled")
	r, err := cl.Pull(ctx, &deckard.PullRequest{Queue: q1, Amount: 10, AckDeadlineMs: 1})
	if err != nil || len(r.Messages) != 2 {
		return helmFail("call", "pulling through the %s: %v, %v", p.what, r, err), false
	}
	back := func(q string, limit time.Duration) int {
		n := 0
		for end := time.Now().Add(limit); n < 2 && time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
			r, err := cl.Pull(ctx, &deckard.PullRequest{Queue: q, Amount: 10, AckDeadlineMs: 600000})
			if err == nil {
				n += len(r.Messages)
			}
		}
		return n
	}
	if keeps {
		if n := back(q1, 60*time.Second); n != 2 {
			return helmFail("housekeeping", "the %s is to do the housekeeping; after 60 s %d of 2 messages are back from an expired deadline; %s", p.what, n, q.tail(300)), false
		}
		if seen.left != "" && x.redis != nil && x.mongo != nil {
			if n := back(seen.left, 60*time.Second); n != 2 {
				return helmFail("housekeeping", "of 2 messages the other container left behind with an expired deadline, %d are back after 60 s", n), false
			}
			x.c.Count("handed over", 1)
		}
		x.c.Count("kept house", 1)
	} else {
		if n := back(q1, 2500*time.Millisecond); n != 0 {
			return helmFail("housekeeping", "housekeeper.self.enabled is false, yet the %s returned %d messages from an expired deadline by itself", p.what, n), false
		}
		seen.left = q1
		x.c.Count("kept no house", 1)
	}
	if x.es != nil {
		q.signal(syscall.SIGTERM)
		if !q.wait(exitLimit) {
			return helmFail("end", "the %s did not end", p.what), false
		}
		n := x.audited() - before
		if on := x.on("audit", "enabled"); on != (n > 0) {
			return helmFail("audit", "audit.enabled is %v; entries of the %s in the audit: %d", on, p.what, n), false
		}
		x.c.Count("audit entries", int64(n))
	}
	return nil, false
}

// audited counts the entries the audit has got so far.
func (x *helmRun) audited() (n int) {
	if x.es == nil {
		return 0
	}
	x.es.mu.Lock()
	defer x.es.mu.Unlock()
	for _, r := range x.es.reqs {
		for _, e := range r.entries {
			if strings.HasPrefix(e.Queue, "chart") {
				n++
			}
		}
	}
	return n
}

type helmSeen struct{ left string }

// stored: the message is where the values say.
func (x *helmRun) stored(p *pod, q string) *mismatch {
	if str(x.val("storage", "type")) == "MONGODB" {
		db := str(x.val("storage", "mongodb", "database"))
		for _, e := range []struct {
			coll string
			n    int
		}{{"collection", 2}, {"queue_configuration_collection", 1}} {
			ns := db + "." + str(x.val("storage", "mongodb", e.coll))
			n := 0
			for _, d := range x.mongo.Docs(ns) {
				for _, f := range d {
					if (f.Key == "queue" || f.Key == "_id") && f.Value == q {
						n++
					}
				}
			}
			if n != e.n {
				return helmFail("mongodb-names", "storage.mongodb names %s for what the %s stored; %d of %d documents are there", ns, p.what, n, e.n)
			}
		}
		x.c.Count("stored in MongoDB", 1)
	}
	if str(x.val("cache", "type")) == "REDIS" {
		pre := str(x.val("cache", "prefix")) + ":"
		n := 0
		for k := range x.redis.Keys() {
			if !strings.HasPrefix(k, pre) {
				return helmFail("cache-prefix", "cache.prefix is %q; the %s uses the key %q", x.val("cache", "prefix"), p.what, k)
			}
			if strings.Contains(k, "{"+q+"}") {
				n++
			}
		}
		if n == 0 {
			return helmFail("cache-prefix", "no key of the queue %q in Redis", q)
		}
		x.c.Count("cached in Redis", 1)
	}
	return nil
}

var appVersion string

func runHelm(c *vk.Ctx, h *chart, k *helmCase) (m *mismatch, skip bool) {
	x := &helmRun{c: c, k: k, given: map[string]map[string]string{}}
	const ns = "prod"
	// The secrets that exist in the cluster hold the addresses of the stand-ins.
	var err error
	over := merge(dict{}, k.Values)
	_, vals, rerr := h.render(k.Release, ns, over)
	if k.Why != "" {
		var ref helmRefusal
		if rerr == nil {
			return helmFail("accepted", "the chart accepts values it has to refuse: %s", k.Why), false
		}
		if !errors.As(rerr, &ref) {
			return helmFail("render", "instead of refusing values (%s) the chart fails with %v", k.Why, rerr), false
		}
		c.Count("refused", 1)
		return nil, false
	}
	if rerr != nil {
		return helmFail("render", "the chart cannot be rendered: %v", rerr), false
	}
	if str(at(vals, "cache", "type")) == "REDIS" {
		n := 1
		if b, _ := at(vals, "cache", "redis", "cluster", "mode").(bool); b {
			n = 3
		}
		if x.redis, err = fakeredis.Start(n); err != nil {
			fatal(err)
		}
		defer x.redis.Close()
		x.exist(vals, "cache", x.redis.URI())
	}
	if str(at(vals, "storage", "type")) == "MONGODB" {
		if x.mongo, err = fakemongo.Start(); err != nil {
			fatal(err)
		}
		defer x.mongo.Close()
		x.exist(vals, "storage", x.mongo.URI())
	}
	if k.Run {
		if x.es, err = startES(nil); err != nil {
			fatal(err)
		}
		defer x.es.stop()
		over = merge(over, helmPorts(c, vals, x.es.addr))
	}
	if x.objs, x.v, err = h.render(k.Release, ns, over); err != nil {
		return helmFail("render", "the chart cannot be rendered: %v", err), false
	}
	if m := x.objects(); m != nil {
		return m, false
	}
	for _, what := range []string{"service", "housekeeper"} {
		if p := x.pods[what]; p != nil {
			if m := x.connect(p, ns); m != nil {
				return m, false
			}
		}
	}
	if !k.Run {
		return nil, false
	}
	seen := &helmSeen{}
	for _, what := range []string{"service", "housekeeper"} {
		if p := x.pods[what]; p != nil {
			if m, skip = x.visit(p, seen); m != nil || skip {
				return
			}
		}
	}
	return nil, false
}

// exist puts the address into the secret the values point to, if they do.
func (x *helmRun) exist(v dict, end, uri string) {
	name, key := str(at(v, end, "connectionSecret", "existingSecret")), str(at(v, end, "connectionSecret", "key"))
	lname, lkey := str(at(v, "connectionSecret", end, "existingSecret")), str(at(v, "connectionSecret", end, "key"))
	std := end + "-uri"
	if name == "" {
		name = lname
	}
	if (key == "" || key == std) && lkey != "" && lkey != std {
		key = lkey
	}
	if key == "" {
		key = lkey
	}
	if name != "" {
		if x.given[name] == nil {
			x.given[name] = map[string]string{}
		}
		x.given[name][key] = uri
	}
}

// helmPorts: ports that are free here, and the address of the audit.
func helmPorts(c *vk.Ctx, vals dict, es string) dict {
	extra := dict{"DECKARD_ELASTIC_ADDRESS": dict{"value": es}}
	return dict{
		"service":     dict{"port": shardPort(c.Shard)},
		"metrics":     dict{"port": shardPort(c.Shard)},
		"env":         extra,
		"housekeeper": dict{"service": dict{"port": shardPort(c.Shard)}, "env": extra},
	}
}

// ---- values ----

func helmValues(r *rand.Rand) *helmCase {
	k := &helmCase{Seed: r.Uint64(), Values: dict{}}
	v := k.Values
	put := func(val any, path ...string) {
		m := v
		for _, p := range path[:len(path)-1] {
			n, ok := m[p].(dict)
			if !ok {
				n = dict{}
				m[p] = n
			}
			m = n
		}
		m[path[len(path)-1]] = val
	}
	pick := func(s ...string) string { return s[r.IntN(len(s))] }
	some := func(n int) bool { return r.IntN(n) == 0 }
	word := func(n int) string {
		const az = "abcdefghijklmnopqrstuvwxyz"
		b := []byte{}
		for len(b) < n {
			b = append(b, az[r.IntN(26)])
		}
		return string(b)
	}
	k.Release = pick("d", "prod", "deckard", "my-deckard", "team-redis", "mongodb-eu", word(1+r.IntN(30)), word(30+r.IntN(24)), word(49)+"-"+word(1+r.IntN(3)))
	if some(4) {
		put(pick("queue", "deckard", word(20), word(60), word(49)+"-x"), "nameOverride")
	}
	if some(4) {
		put(pick("q", "prio", word(40), word(70), word(49)+"-"+word(5)), "fullnameOverride")
	}
	for _, root := range [][]string{{}, {"housekeeper"}} {
		p := func(s ...string) []string { return append(append([]string{}, root...), s...) }
		if some(3) {
			put(pick("1.2.3", "latest"), p("image", "tag")...)
		}
		if some(3) {
			put(pick("registry.local/deckard", "mirror:5000/x"), p("image", "repository")...)
		}
		if some(4) {
			put(pick("Always", "Never"), p("image", "pullPolicy")...)
		}
		if some(3) {
			put(dict{"team": pick("a", "b")}, p("labels")...)
		}
		if some(3) {
			put(dict{"prometheus.io/scrape": "true", "n": pick("1", "x: y")}, p("podAnnotations")...)
		}
		if some(4) {
			put(dict{"fsGroup": 2000}, p("podSecurityContext")...)
		}
		if some(4) {
			put(dict{"runAsUser": 10001, "capabilities": dict{"drop": []any{"ALL"}}}, p("securityContext")...)
		}
		if some(4) {
			put(dict{"limits": dict{"cpu": "100m", "memory": "128Mi"}}, p("resources")...)
		}
		if some(4) {
			put(dict{"disk": "ssd"}, p("nodeSelector")...)
		}
		if some(4) {
			put([]any{dict{"key": "spot", "operator": "Exists", "effect": "NoSchedule"}}, p("tolerations")...)
		}
		if some(4) {
			put(dict{"nodeAffinity": dict{"preferredDuringSchedulingIgnoredDuringExecution": []any{dict{"weight": 1}}}}, p("affinity")...)
		}
		if some(3) {
			put(dict{"GOMAXPROCS": dict{"value": "2"}, "EXTRA": dict{"value": pick("", "a b", "yes")}}, p("env")...)
		}
		if some(4) {
			put(dict{"pprof": dict{"containerPort": 6060, "protocol": "TCP"}}, p("containerPorts")...)
		}
		if some(3) {
			put(1+r.IntN(5), p("replicaCount")...)
		}
		if some(4) {
			put(some(2), p("service", "enabled")...)
		}
		if some(4) {
			put(pick("NodePort", "LoadBalancer"), p("service", "type")...)
		}
		if some(2) {
			put(1024+r.IntN(60000), p("service", "port")...)
		}
	}
	if some(2) {
		put(some(2), "autoscaling", "enabled")
	}
	if some(3) {
		put(1+r.IntN(3), "autoscaling", "minReplicas")
		put(3+r.IntN(9), "autoscaling", "maxReplicas")
	}
	if some(3) {
		put(50+r.IntN(40), "autoscaling", pick("targetCPUUtilizationPercentage", "targetMemoryUtilizationPercentage"))
	}
	if some(4) {
		put([]any{dict{"name": "regcred"}}, "imagePullSecrets")
	}
	if some(4) {
		put(dict{"lb": pick("internal", "external")}, "service", "annotations")
	}
	if some(3) {
		put(true, "ingress", "enabled")
		put(pick("", "nginx"), "ingress", "className")
		var hosts []any
		for i := r.IntN(3); i >= 0; i-- {
			var paths []any
			for j := r.IntN(2); j >= 0; j-- {
				paths = append(paths, dict{"path": pick("/", "/"+word(3)), "pathType": pick("Prefix", "Exact", "ImplementationSpecific")})
			}
			hosts = append(hosts, dict{"host": word(3) + ".example.com", "paths": paths})
		}
		put(hosts, "ingress", "hosts")
		if some(2) {
			put([]any{dict{"hosts": []any{"a.example.com", "b.example.com"}, "secretName": "the-tls"}}, "ingress", "tls")
		}
		if some(2) {
			put(dict{"nginx.ingress.kubernetes.io/backend-protocol": "GRPC"}, "ingress", "annotations")
		}
	}
	if some(2) {
		put(some(2), "housekeeper", "enabled")
	}
	put(some(2), "housekeeper", "self", "enabled")
	if some(2) {
		put(some(2), "metrics", "enabled")
	}
	if some(2) {
		put(1024+r.IntN(60000), "metrics", "port")
	}
	if some(2) {
		put("/"+word(5), "metrics", "path")
	}
	if some(2) {
		put(true, "audit", "enabled")
	}
	if some(2) {
		put(pick("team", "deckard_v2", "123", "a:b", "true", word(10)), "cache", "prefix")
	}
	pass := func() string {
		return pick("deckard", "p@ss", "a/b", "x:y", "50%", "a b", "q?x#y", "c+d", "é", word(12))
	}
	switch r.IntN(4) {
	case 0:
		put("MEMORY", "cache", "type")
		if some(2) {
			put(false, "redis", "enabled")
		}
	default:
		ext := r.IntN(3)
		if ext > 0 {
			put(false, "redis", "enabled")
			helmSecret(put, pick, "cache")
			if ext > 1 {
				put(true, "cache", "redis", "cluster", "mode")
			}
		} else {
			put(pass(), "redis", "auth", "password")
			if some(3) {
				put("uri-of-cache", append(strings.Fields(pick("cache connectionSecret", "connectionSecret cache")), "key")...)
			}
			if some(3) {
				put("replication", "redis", "architecture")
			}
			if some(3) {
				put(pick("kv", word(55)), "redis", "nameOverride")
			}
			if some(3) {
				put(pick("the-redis", word(40)), "redis", "fullnameOverride")
			}
			if some(3) {
				put(r.IntN(16), "cache", "redis", "database")
			}
		}
	}
	switch r.IntN(4) {
	case 0:
		put("MEMORY", "storage", "type")
		if some(2) {
			put(false, "mongodb", "enabled")
		}
	default:
		if some(2) {
			put(false, "mongodb", "enabled")
			helmSecret(put, pick, "storage")
		} else {
			put(pass(), "mongodb", "auth", "rootPassword")
			if some(3) {
				put("uri-of-storage", append(strings.Fields(pick("storage connectionSecret", "connectionSecret storage")), "key")...)
			}
			if some(3) {
				put("replicaset", "mongodb", "architecture")
			}
			if some(2) {
				put(pick("root", "a@b", "a:b", "a/b", "50%", word(4)), "mongodb", "auth", "rootUser")
			}
			if some(4) {
				put(false, "mongodb", "auth", "enabled")
			}
			if some(3) {
				put(pick("docs", word(55)), "mongodb", "nameOverride")
			}
		}
		for _, f := range []string{"database", "collection", "queue_configuration_collection"} {
			if some(2) {
				put(word(6), "storage", "mongodb", f)
			}
		}
	}
	if some(6) {
		helmRefused(k, put, r)
	}
	return k
}

func helmSecret(put func(any, ...string), pick func(...string) string, end string) {
	scoped := []string{end, "connectionSecret"}
	legacy := []string{"connectionSecret", end}
	add := func(p []string, name, key string) {
		put(name, append(append([]string{}, p...), "existingSecret")...)
		if key != "" {
			put(key, append(append([]string{}, p...), "key")...)
		}
	}
	switch pick("scoped", "legacy", "both") {
	case "scoped":
		add(scoped, "ext-"+end, pick("", "uri"))
	case "legacy":
		add(legacy, "old-"+end, pick("", "address"))
	default:
		add(legacy, "old-"+end, "address")
		add(scoped, "ext-"+end, "uri")
	}
}

// helmRefused turns the values into some that cannot work.
func helmRefused(k *helmCase, put func(any, ...string), r *rand.Rand) {
	none := func(end string) {
		put("", end, "connectionSecret", "existingSecret")
		put("", "connectionSecret", end, "existingSecret")
	}
	switch r.IntN(4) {
	case 0:
		put("MONGODB", "storage", "type")
		put(false, "mongodb", "enabled")
		none("storage")
		k.Why = "MongoDB is neither deployed nor given"
	case 1:
		put("REDIS", "cache", "type")
		put(false, "redis", "enabled")
		none("cache")
		k.Why = "Redis is neither deployed nor given"
	case 2:
		put("REDIS", "cache", "type")
		put(true, "redis", "enabled")
		put(true, "cache", "redis", "cluster", "mode")
		k.Why = "cluster mode with the chart's own Redis"
	default:
		put("REDIS", "cache", "type")
		put(true, "redis", "enabled")
		put("", "cache", "connectionSecret", "key")
		put("", "connectionSecret", "cache", "key")
		k.Why = "no key in the secret"
	}
}

func helmDir() string { return filepath.Join(filepath.Dir(binary()), "helm") }

type helmJudge struct {
	c *vk.Ctx
	h *chart
}

func newHelmJudge(c *vk.Ctx) *helmJudge {
	h, err := loadChart(helmDir())
	if err != nil {
		fatal(fmt.Errorf("the chart cannot be loaded: %w", err))
	}
	appVersion = str(h.meta["AppVersion"])
	return &helmJudge{c, h}
}

func (j *helmJudge) judge(k *helmCase) bool {
	for try := 0; try < 5; try++ {
		j.c.Active("helm", k)
		m, skip := runHelm(j.c, j.h, k)
		if skip {
			continue
		}
		j.c.Eval(1)
		if m != nil {
			j.c.Violation(m.key, k, "release %q: %s", k.Release, m.text)
			return false
		}
		return true
	}
	j.c.Count("ports never free", 1)
	return true
}

// The usual ways to deploy it, whatever the generator finds.
func helmUsual() []dict {
	alone := dict{"housekeeper": dict{"self": dict{"enabled": true}, "enabled": false}}
	memory := dict{"cache": dict{"type": "MEMORY"}, "storage": dict{"type": "MEMORY"}, "redis": dict{"enabled": false}, "mongodb": dict{"enabled": false}}
	named := dict{"audit": dict{"enabled": true}, "cache": dict{"prefix": "prod"},
		"storage": dict{"mongodb": dict{"database": "prod", "collection": "messages", "queue_configuration_collection": "settings"}}}
	return []dict{{}, merge(alone, memory), named, alone,
		merge(named, dict{"housekeeper": dict{"env": dict{"DECKARD_LOG_JSON": dict{"value": "true"}}}}),
		{"redis": dict{"enabled": false}, "cache": dict{"redis": dict{"cluster": dict{"mode": true}}, "connectionSecret": dict{"existingSecret": "the-cluster"}}},
		merge(memory, dict{"metrics": dict{"enabled": false}, "audit": dict{"enabled": true}}),
		merge(named, dict{"storage": dict{"type": "MEMORY"}, "metrics": dict{"path": "/m"}}),
	}
}

// initScripts runs the scripts the chart gives to its own MongoDB at its first start.
func (j *helmJudge) initScripts() {
	node, err := exec.LookPath("node")
	if err != nil {
		j.c.Note("node is missing: the MongoDB start scripts were not run")
		return
	}
	const shell = `const out = [];
const at = name => new Proxy({}, { get: (_, k) => {
  if (k === "getSiblingDB") return n => at(n);
  if (k === "getName") return () => name;
  const coll = c => new Proxy({}, { get: (_, f) => (...a) => {
    if (f === "createIndex") out.push({ ns: name + "." + c, keys: Object.keys(a[0]), unique: !!(a[1] && a[1].unique) });
    if (f === "createIndexes") for (const k of a[0]) out.push({ ns: name + "." + c, keys: Object.keys(k), unique: !!(a[1] && a[1].unique) });
  } });
  return k === "getCollection" ? coll : k === "createCollection" ? () => {} : coll(String(k));
} });
globalThis.db = at("test"); globalThis.print = () => {};
require("vm").runInThisContext(require("fs").readFileSync(0, "utf8"));
console.log(JSON.stringify(out));`
	ns := str(at(j.h.values, "storage", "mongodb", "database")) + "." + str(at(j.h.values, "storage", "mongodb", "collection"))
	scripts, _ := at(j.h.values, "mongodb", "initdbScripts").(dict)
	found := false
	var all []any
	for _, v := range scripts {
		cmd := exec.Command(node, "-e", shell)
		cmd.Stdin = strings.NewReader(str(v))
		b, err := cmd.CombinedOutput()
		var out []struct {
			NS     string
			Keys   []string
			Unique bool
		}
		if err == nil {
			err = json.Unmarshal(b, &out)
		}
		if err != nil {
			j.c.Violation("init-script", &helmCase{}, "a script MongoDB is given at its first start fails: %v %.300s", err, b)
			return
		}
		for _, x := range out {
			sort.Strings(x.Keys)
			found = found || x.NS == ns && x.Unique && reflect.DeepEqual(x.Keys, []string{"id", "queue"})
			all = append(all, x)
		}
		j.c.Count("indexes", int64(len(out)))
	}
	j.c.Eval(1)
	if !found {
		j.c.Violation("init-script", &helmCase{}, "with the default values nothing keeps %s from holding one message of a queue twice; indexes: %v", ns, all)
	}
}

func helmCheck(c *vk.Ctx) {
	j := newHelmJudge(c)
	if c.Shard == 0 {
		j.initScripts()
	}
	for i, v := range helmUsual() {
		if i%max(c.Shards, 1) == c.Shard && !j.judge(&helmCase{Release: "prod", Values: v, Run: true}) {
			return
		}
	}
	r, runs := c.Rand(uint64(3600+c.Shard)), c.N(3, 60)
	for i := 0; i < c.N(400, 6000) && !c.Over() && !c.Violated(); i++ {
		k := helmValues(r)
		k.Run = k.Why == "" && runs > 0 && !c.Past(0.6)
		if k.Run {
			runs--
		}
		b, _ := json.Marshal(k.Values)
		c.Distinct(k.Release + string(b))
		if !j.judge(k) {
			return
		}
	}
}

func init() {
	vk.Register(&vk.Check{Prop: "C36", Shards: 8, QuickS: 40, ThoroughS: 400,
		Rule:        "a distinct non-trivial case is a (release name, values) combination whose rendered objects were judged, those run being deployed container by container",
		Assumptions: []string{"the chart's templates are rendered by a stand-in for Helm (Go's own template engine with the functions the chart may use)", "the sub charts of Redis and MongoDB are represented by the names and ports they give their services", "Kubernetes' own behaviour is taken from its documentation", "Redis, MongoDB and the audit server are in-process protocol servers written for this task"},
		Run:         helmCheck,
		Replay: func(c *vk.Ctx, raw json.RawMessage) {
			k := &helmCase{}
			fatal(json.Unmarshal(raw, k))
			newHelmJudge(c).judge(k)
		}})
}
