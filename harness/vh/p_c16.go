package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
	"gopkg.in/yaml.v2"
)

func init() {
	registry["C16"] = propC16
	registry["C17"] = propC17
}

func propC16() *pbt.Property {
	return &pbt.Property{ID: "C16",
		Rule: "sequence: 4..14 configuration commands (init with and without overwrite, single and cosigner; nodes add/remove, peers add/remove, set-shares, chain-id set) with drawn valid, duplicate, out-of-range and malformed arguments, " +
			"run with the real binary on a home given by flag or environment, starting empty or from a hand-written configuration. Oracle: a reference model of the configuration decides which commands must fail, must succeed or may do either; " +
			"after success the file read by the harness is exactly the model, after failure no byte of the home has changed; the forbidden configurations never appear. none: every command of the binary without a configuration. " +
			"Non-trivial: a sequence with at least two successful edits (sequence), every case (none). Distinct by choices.",
		Parts: []pbt.Part{
			{Name: "sequence", Fn: c16Sequence, Quick: 500, Thorough: 20000, Workers: 10, QuickSecs: 45, ThoroughSecs: 1500, Timeout: 240 * time.Second},
			{Name: "none", Fn: c16None, Quick: 150, Thorough: 2000, Workers: 10, QuickSecs: 20, ThoroughSecs: 200, Timeout: 120 * time.Second},
		}}
}

func propC17() *pbt.Property {
	return &pbt.Property{ID: "C17",
		Rule: "sequences of 4..14 init (with overwrite), state set, state show and chain-id set commands over several chain IDs in single-signer and cosigner homes, between drawn changes of the state files (as signing would leave them, missing, damaged). " +
			"Oracle: a reference model on the states read by the harness: what must change, what must not, and what is printed. Non-trivial: a sequence in which a command succeeded while a non-zero watermark was stored. Distinct by choices.",
		Assumptions: []string{"no process named horcrux runs beside the check (state set refuses then)"},
		Parts: []pbt.Part{
			{Name: "sequence", Fn: c17Sequence, Quick: 500, Thorough: 20000, Workers: 10, QuickSecs: 45, ThoroughSecs: 1500, Timeout: 240 * time.Second},
		}}
}

// ---------- the model of a configuration ----------

type mPeer struct {
	id   int
	addr string
}

type mCos struct {
	thr, shares     int
	listen, timeout string
	peers           []mPeer
}

type mCfg struct {
	home, key, chain string
	cos              *mCos
	nodes            []string
}

func (c *mCfg) String() string {
	if c == nil {
		return "none"
	}
	s := fmt.Sprintf("home %q key %q chain %q nodes %q", c.home, c.key, c.chain, c.nodes)
	if c.cos != nil {
		s += fmt.Sprintf(" threshold %d shares %d listen %q timeout %q peers %q", c.cos.thr, c.cos.shares, c.cos.listen, c.cos.timeout, fmt.Sprint(c.cos.peers))
	}
	return s
}

func (c *mCfg) clone() *mCfg {
	if c == nil {
		return nil
	}
	o := *c
	o.nodes = append([]string{}, c.nodes...)
	if c.cos != nil {
		k := *c.cos
		k.peers = append([]mPeer{}, c.cos.peers...)
		o.cos = &k
	}
	return &o
}

// readCfg reads a configuration file with the documented fields; anything else in it is an error.
func readCfg(file string) (*mCfg, error) {
	b, err := ioutil.ReadFile(file)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var y struct {
		Home   string `yaml:"home-dir"`
		Key    string `yaml:"key-file"`
		Chain  string `yaml:"chain-id"`
		Cosign *struct {
			Threshold int    `yaml:"threshold"`
			Shares    int    `yaml:"shares"`
			Listen    string `yaml:"p2p-listen"`
			Peers     []struct {
				ID   int    `yaml:"share-id"`
				Addr string `yaml:"p2p-addr"`
			} `yaml:"peers"`
			Timeout string `yaml:"rpc-timeout"`
		} `yaml:"cosigner"`
		Nodes []struct {
			Addr string `yaml:"priv-val-addr"`
		} `yaml:"chain-nodes"`
	}
	if err := yaml.UnmarshalStrict(b, &y); err != nil {
		return nil, fmt.Errorf("%v: %q", err, string(b))
	}
	c := &mCfg{home: y.Home, key: y.Key, chain: y.Chain}
	for _, n := range y.Nodes {
		c.nodes = append(c.nodes, n.Addr)
	}
	if y.Cosign != nil {
		c.cos = &mCos{thr: y.Cosign.Threshold, shares: y.Cosign.Shares, listen: y.Cosign.Listen, timeout: y.Cosign.Timeout}
		for _, p := range y.Cosign.Peers {
			c.cos.peers = append(c.cos.peers, mPeer{p.ID, p.Addr})
		}
	}
	return c, nil
}

// forbidden names what no sequence of commands may lead to.
func (c *mCfg) forbidden() string {
	for _, n := range c.nodes {
		if !parsable(n) {
			return fmt.Sprintf("unparsable node address %q", n)
		}
	}
	if c.cos == nil {
		return ""
	}
	return badPeers(c.cos.peers, c.cos.shares)
}

func badPeers(peers []mPeer, shares int) string {
	seen := map[int]bool{}
	for _, p := range peers {
		if seen[p.id] {
			return fmt.Sprintf("duplicate peer ID %d", p.id)
		}
		seen[p.id] = true
		if p.id < 1 || p.id > shares {
			return fmt.Sprintf("peer ID %d outside 1..%d", p.id, shares)
		}
	}
	if len(peers) >= shares {
		return fmt.Sprintf("%d peers with %d shares", len(peers), shares)
	}
	return ""
}

func parsable(s string) bool {
	_, err := url.Parse(s)
	return err == nil
}

func chainOK(s string) bool { return s != "" && !strings.Contains(s, "/") && len(s) <= 50 }

// what the model demands of a command
const (
	mayBoth = iota
	mustFail
	mustWork
)

type cfgOp struct {
	args []string
	want int
	why  string
	next *mCfg // after success
	init string
}

// cfgRig is a home with the binary.
type cfgRig struct {
	t      *pbt.T
	home   string
	viaEnv bool
	cur    *mCfg
	good   int
}

func newCfgRig(t *pbt.T) *cfgRig {
	r := &cfgRig{t: t, viaEnv: t.Chance(1, 4)}
	r.home = filepath.Join(t.Scratch, "home")
	if r.viaEnv {
		r.home = filepath.Join(t.Scratch, ".horcrux")
	}
	return r
}

func (r *cfgRig) args(a []string) []string {
	if r.viaEnv {
		return a
	}
	return append(append([]string{}, a...), "--home", r.home)
}

func (r *cfgRig) cfgFile() string { return filepath.Join(r.home, "config.yaml") }

func (r *cfgRig) statePath(chain, kind string) string {
	return filepath.Join(r.home, "state", chain+kind)
}

const (
	pvKind    = "_priv_validator_state.json"
	shareKind = "_share_sign_state.json"
)

var (
	goodAddrs = []string{"tcp://a:1", "tcp://b:2", "tcp://a:2", "tcp://10.0.0.1:1234", "tcp://c:3", "tcp://d.example.com:26659", "localhost:1"}
	badAddrs  = []string{"10.0.0.1:26659", "tcp://[::1", "tcp://a:port", "%zz", ":x", "tcp://a b:1", "\x7f"}
	plainIDs  = []string{"chain-a", "chain-b", "cosmoshub-4", "x"}
	oddIDs    = []string{"true", "123", "a b", "\u00fcn\u00ef", "~", "0x1f", "a: b", "\"q\"", "null", "#c", "a\nb", "[]", "1e3", "'", " lead"}
	badIDs    = []string{"", "a/b", "../x", strings.Repeat("y", 300), "/", "a/../b"}
)

func (r *cfgRig) addr() string {
	if r.t.Chance(1, 9) {
		return badAddrs[r.t.Intn(len(badAddrs))]
	}
	return goodAddrs[r.t.Intn(len(goodAddrs))]
}

func (r *cfgRig) chain() string {
	switch r.t.Weighted(10, 2, 2) {
	case 1:
		return oddIDs[r.t.Intn(len(oddIDs))]
	case 2:
		return badIDs[r.t.Intn(len(badIDs))]
	}
	return plainIDs[r.t.Intn(len(plainIDs))]
}

// addrs draws distinct addresses.
func (r *cfgRig) addrs() []string {
	var out []string
	seen := map[string]bool{}
	for i := 1 + r.t.Weighted(5, 3, 1, 1); i > 0; i-- {
		a := r.addr()
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	return out
}

func allParsable(a []string) bool {
	for _, x := range a {
		if !parsable(x) {
			return false
		}
	}
	return true
}

// peerArg draws a peers argument; ok false if it must be refused as malformed.
func (r *cfgRig) peerArg(shares int) (arg string, peers []mPeer, ok bool) {
	t := r.t
	ok = true
	var items []string
	next := t.Perm(shares)
	for i, k := 0, 1+t.Weighted(3, 4, 2, 1); i < k; i++ {
		p := mPeer{addr: goodAddrs[t.Intn(len(goodAddrs))]}
		switch t.Weighted(14, 1, 1, 1) {
		case 0:
			p.id = 1 + next[i%len(next)]
		case 1:
			p.id = 1 + t.Intn(shares)
		case 2:
			p.id = []int{0, -1, shares + 1, 99, 1 << 40, -(1 << 62)}[t.Intn(6)]
		case 3:
			if r.cur != nil && r.cur.cos != nil && len(r.cur.cos.peers) > 0 {
				p = r.cur.cos.peers[t.Intn(len(r.cur.cos.peers))] // one that is there already
				if t.Chance(1, 3) {
					p.addr = "tcp://z:9"
				}
			} else {
				p.id = 1 + t.Intn(shares)
			}
		}
		for _, q := range peers {
			if q == p {
				p.addr = "tcp://y:8" // in-argument duplicates differ in the address
			}
		}
		peers = append(peers, p)
		items = append(items, fmt.Sprintf("%s|%d", p.addr, p.id))
	}
	if t.Chance(1, 10) {
		ok = false
		i := t.Intn(len(items))
		switch t.Intn(7) {
		case 0:
			items[i] = "tcp://p:1"
		case 1:
			items[i] = "tcp://p:1|x"
		case 2:
			items[i] += "|1"
		case 3:
			items[i] = "tcp://p:1|99999999999999999999"
		case 4:
			items = append(items, "")
		case 5:
			items[i] = "tcp://p:1|"
		case 6:
			items[i] = "tcp://p:1|1.5"
		}
	}
	return strings.Join(items, ","), peers, ok
}

func (r *cfgRig) initOp(chain string, overwrite bool) cfgOp {
	t := r.t
	next := &mCfg{home: r.home, chain: chain}
	op := cfgOp{args: []string{"config", "init", chain}, next: next, want: mustWork, init: chain}
	fail := func(why string) {
		if op.want != mustFail {
			op.want, op.why = mustFail, why
		}
	}
	maybe := func() {
		if op.want == mustWork {
			op.want = mayBoth
		}
	}
	if !chainOK(chain) {
		fail("chain ID")
	}
	if r.cur != nil && !overwrite {
		fail("the configuration exists")
	}
	cos := t.Bool()
	if t.Chance(5, 6) {
		next.nodes = r.addrs()
		op.args = append(op.args, strings.Join(next.nodes, ","))
		if !allParsable(next.nodes) {
			fail("node address")
		}
	} else if !cos {
		fail("no node")
	}
	if overwrite {
		op.args = append(op.args, "-o")
	}
	if t.Chance(1, 4) {
		next.key = []string{"/keys/share.json", "k.json", "true", "a b"}[t.Intn(4)]
		op.args = append(op.args, "-k", next.key)
	}
	if cos || t.Chance(1, 8) {
		shares := t.Range(2, 6)
		arg, peers, ok := r.peerArg(shares)
		thr := t.Range(1, len(peers)+1)
		if t.Chance(1, 6) {
			thr = []int{0, -1, len(peers) + 2, 99}[t.Intn(4)]
		}
		c := &mCos{thr: thr, shares: len(peers) + 1, listen: "tcp://me:2222", timeout: "1500ms", peers: peers}
		args := []string{"-p", arg, "-t", fmt.Sprint(thr)}
		badListen, badTimeout := false, false
		switch t.Weighted(8, 1, 1) {
		case 1:
			c.listen = []string{"tcp://10.1.1.1:1", "tcp://me.example.com:2222", "tcp://[::1]:5"}[t.Intn(3)]
		case 2:
			c.listen = []string{"", "tcp://0.0.0.0:2222", "tcp://me", "me:2222", "10.0.0.1:2", "tcp://[::1"}[t.Intn(6)]
			badListen = true
		}
		args = append(args, "-l", c.listen)
		if t.Chance(1, 3) {
			c.timeout = []string{"1s", "1m30s", "250ms", "abc", "5", "", "1 s"}[t.Intn(7)]
			_, err := time.ParseDuration(c.timeout)
			badTimeout = err != nil
			args = append(args, "--timeout", c.timeout)
		}
		op.args = append(op.args, args...)
		if cos {
			op.args = append(op.args, "-c")
			next.cos = c
			switch {
			case !ok:
				fail("malformed peers")
			case badPeers(peers, c.shares) != "":
				fail(badPeers(peers, c.shares))
			case badListen:
				fail("listen address")
			case badTimeout:
				fail("timeout")
			case thr > c.shares:
				fail("threshold")
			}
			if thr*2 <= c.shares {
				maybe() // starting refuses it; so may this
			}
		}
	}
	return op
}

func (r *cfgRig) nodesOp() cfgOp {
	t := r.t
	op := cfgOp{next: r.cur.clone()}
	arg := r.addrs()
	if r.cur != nil && len(r.cur.nodes) > 0 && t.Chance(2, 3) {
		for _, i := range t.Subset(len(r.cur.nodes), 1+t.Intn(len(r.cur.nodes))) {
			arg[t.Intn(len(arg))] = r.cur.nodes[i]
		}
		seen := map[string]bool{}
		var a []string
		for _, x := range arg {
			if !seen[x] {
				a = append(a, x)
			}
			seen[x] = true
		}
		arg = a
	}
	in := func(l []string, x string) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	remove := t.Bool()
	op.args = []string{"config", "nodes", map[bool]string{false: "add", true: "remove"}[remove], strings.Join(arg, ",")}
	if r.cur == nil {
		op.want, op.why = mustFail, "no configuration"
		return op
	}
	changed := false
	if remove {
		op.next.nodes = nil
		for _, n := range r.cur.nodes {
			if in(arg, n) {
				changed = true
			} else {
				op.next.nodes = append(op.next.nodes, n)
			}
		}
		if len(op.next.nodes) == 0 {
			op.want, op.why = mustFail, "no node would be left"
			return op
		}
	} else {
		for _, n := range arg {
			if !in(r.cur.nodes, n) {
				changed = true
				op.next.nodes = append(op.next.nodes, n)
			}
		}
	}
	switch {
	case !allParsable(arg):
		op.want, op.why = mustFail, "unparsable address"
	case changed:
		op.want = mustWork
	}
	return op
}

func (r *cfgRig) peersOp() cfgOp {
	t := r.t
	op := cfgOp{next: r.cur.clone()}
	shares := 4
	var cos *mCos
	if r.cur != nil && r.cur.cos != nil {
		cos = op.next.cos
		shares = cos.shares
	}
	switch t.Intn(5) {
	case 0, 1: // add
		arg, peers, ok := r.peerArg(shares)
		op.args = []string{"config", "peers", "add", arg}
		if cos == nil {
			break
		}
		changed := false
		for _, p := range peers {
			found := false
			for _, q := range r.cur.cos.peers {
				found = found || p == q
			}
			if !found {
				changed = true
				cos.peers = append(cos.peers, p)
			}
		}
		switch {
		case !ok:
			op.want, op.why = mustFail, "malformed"
		case badPeers(cos.peers, shares) != "":
			op.want, op.why = mustFail, badPeers(cos.peers, shares)
		case changed:
			op.want = mustWork
		}
	case 2, 3: // remove
		var ids []string
		rm := map[int]bool{}
		ok := true
		for i := 1 + t.Weighted(4, 2, 1); i > 0; i-- {
			switch {
			case cos != nil && len(cos.peers) > 0 && t.Chance(5, 6):
				p := cos.peers[t.Intn(len(cos.peers))]
				ids = append(ids, fmt.Sprint(p.id))
				rm[p.id] = true
			case t.Chance(1, 3):
				ids = append(ids, []string{"x", "", "1.5", "99999999999999999999", "1|2"}[t.Intn(5)])
				ok = false
			default:
				id := t.Intn(12)
				ids = append(ids, fmt.Sprint(id))
				rm[id] = true
			}
		}
		op.args = []string{"config", "peers", "remove", strings.Join(ids, ",")}
		if cos == nil {
			break
		}
		cos.peers = nil
		for _, p := range r.cur.cos.peers {
			if !rm[p.id] {
				cos.peers = append(cos.peers, p)
			}
		}
		switch {
		case !ok:
			op.want, op.why = mustFail, "malformed ID"
		case len(cos.peers) == 0:
			op.want, op.why = mustFail, "no peer would be left"
		case len(cos.peers)+1 < cos.thr:
			// fewer cosigners than the threshold: the statement leaves it open
		case len(cos.peers) < len(r.cur.cos.peers):
			op.want = mustWork
		}
	case 4: // shares
		s := fmt.Sprint(t.Range(0, 9))
		if cos != nil && t.Bool() {
			s = fmt.Sprint(shares + t.Range(1, 3))
			if t.Chance(1, 3) {
				s = fmt.Sprint(cos.thr*2 - 1)
			}
		}
		if t.Chance(1, 8) {
			s = []string{"x", "", "1.5", "99999999999999999999", "1000", "4,5"}[t.Intn(6)]
		}
		op.args = []string{"config", "peers", "set-shares", s}
		if cos == nil {
			break
		}
		n, err := strconv.Atoi(s)
		cos.shares = n
		switch {
		case err != nil:
			op.want, op.why = mustFail, "malformed number"
		case badPeers(cos.peers, n) != "":
			op.want, op.why = mustFail, badPeers(cos.peers, n)
		case cos.thr > n || cos.thr*2 <= n:
		default:
			op.want = mustWork
		}
	}
	if cos == nil {
		op.want, op.why = mustFail, "no cosigner configuration"
	}
	return op
}

func (r *cfgRig) chainOp() cfgOp {
	op := cfgOp{next: r.cur.clone()}
	c := r.chain()
	op.args = []string{"config", "chain-id", "set", c}
	if r.cur == nil {
		op.want, op.why = mustFail, "no configuration"
		return op
	}
	op.next.chain = c
	if c == "" {
		op.want, op.why = mustFail, "empty chain ID"
	}
	return op
}

// run runs the command and judges configuration, output and untouched files; it tells whether it succeeded.
func (r *cfgRig) run(op cfgOp) (ok bool, out string, before, after map[string]string) {
	t := r.t
	before = snapshot(t.Scratch)
	res := runHX(t.Scratch, 60*time.Second, r.args(op.args)...)
	after = snapshot(t.Scratch)
	cmd := fmt.Sprintf("%q", op.args)
	if res.timedOut {
		t.FatalfLive("%s does not end within 60 s", cmd)
	}
	t.Logf("%s: status %d (%s)", cmd, res.code, op.why)
	if res.crashed {
		t.Fatalf("%s crashes: %s", cmd, tailStr(res.out, 2500))
	}
	d := diffSnap(before, after)
	if res.code != 0 {
		if d != "" {
			t.Fatalf("%s fails with status %d, but: %s\n%s", cmd, res.code, d, res.out)
		}
		if op.want == mustWork {
			t.Fatalf("%s fails with status %d: %s\nconfiguration: %v", cmd, res.code, res.out, r.cur)
		}
		t.Label(op.args[0] + " " + op.args[1] + " refused")
		return false, res.out, before, after
	}
	if op.want == mustFail {
		t.Fatalf("%s succeeds although: %s\nconfiguration before: %v\nchanges: %s", cmd, op.why, r.cur, d)
	}
	got, err := readCfg(r.cfgFile())
	if err != nil {
		t.Fatalf("after %s the configuration cannot be read: %v", cmd, err)
	}
	if got.String() != op.next.String() {
		t.Fatalf("after %s the configuration is\n  %v\ninstead of\n  %v\nbefore it was\n  %v", cmd, got, op.next, r.cur)
	}
	r.cur = got
	if got != nil {
		if f := got.forbidden(); f != "" {
			t.Fatalf("after %s the configuration has %s: %v", cmd, f, got)
		}
	}
	t.Label(op.args[0] + " " + op.args[1] + " applied")
	return true, res.out, before, after
}

// rel is the name of a file in snapshots.
func (r *cfgRig) rel(p string) string {
	s, err := filepath.Rel(r.t.Scratch, p)
	pbt.Must(err)
	return s
}

// othersUntouched fails if a file not named in allowed differs.
func (r *cfgRig) othersUntouched(what string, before, after map[string]string, allowed ...string) {
	a, b := map[string]string{}, map[string]string{}
	skip := map[string]bool{}
	for _, p := range allowed {
		skip[r.rel(p)] = true
	}
	for k, v := range before {
		if !skip[k] {
			a[k] = v
		}
	}
	for k, v := range after {
		if !skip[k] {
			b[k] = v
		}
	}
	if d := diffSnap(a, b); d != "" {
		r.t.Fatalf("%s also: %s", what, d)
	}
}

// judgeInit checks the states after a successful init.
func (r *cfgRig) judgeInit(op cfgOp, before, after map[string]string) {
	t := r.t
	allowed := []string{r.cfgFile()}
	if !has(before, r.rel(r.home)+"/") {
		allowed = append(allowed, r.home+"/", r.home)
		// the snapshot names directories with a trailing slash
		before = cloneMap(before)
		before[r.rel(r.home)+"/"] = ""
	}
	if !has(before, r.rel(r.home)+"/state/") {
		before = cloneMap(before)
		before[r.rel(r.home)+"/state/"] = ""
	}
	kinds := []string{pvKind}
	if r.cur.cos != nil {
		kinds = append(kinds, shareKind)
	}
	for _, k := range kinds {
		f := r.statePath(op.init, k)
		allowed = append(allowed, f)
		now, err := readStateFile(f)
		if err != nil {
			t.Fatalf("after init the state file does not read: %v", err)
		}
		old, existed := before[r.rel(f)]
		if !existed || !validState(old) {
			if now.HRS != (HRS{}) && !existed {
				t.Fatalf("init creates a state at %v", now.HRS)
			}
			continue
		}
		if d := diffState(parseState(old), now); d != "" {
			t.Fatalf("init changes the existing state %s: %s", filepath.Base(f), d)
		}
	}
	r.othersUntouched("init", before, after, allowed...)
}

func cloneMap(m map[string]string) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func validState(s string) bool {
	_, err := parseStateStr(s)
	return err == nil
}

func parseState(s string) fileState {
	fs, _ := parseStateStr(s)
	return fs
}

func parseStateStr(s string) (fs fileState, err error) {
	var raw struct {
		Height    *string `json:"height"`
		Round     *string `json:"round"`
		Step      *int    `json:"step"`
		Eph       []byte  `json:"ephemeral_public"`
		Signature []byte  `json:"signature"`
		SignBytes string  `json:"signbytes"`
	}
	if err = json.Unmarshal([]byte(s), &raw); err != nil {
		return fs, err
	}
	if raw.Height == nil || raw.Round == nil || raw.Step == nil {
		return fs, fmt.Errorf("incomplete")
	}
	if fs.HRS.H, err = strconv.ParseInt(*raw.Height, 10, 64); err != nil {
		return fs, err
	}
	if fs.HRS.R, err = strconv.ParseInt(*raw.Round, 10, 64); err != nil {
		return fs, err
	}
	fs.HRS.S, fs.Eph, fs.Sig, fs.SignBytes = *raw.Step, raw.Eph, raw.Signature, raw.SignBytes
	return fs, nil
}

func diffState(a, b fileState) string {
	if a.HRS != b.HRS {
		return fmt.Sprintf("%v became %v", a.HRS, b.HRS)
	}
	if a.SignBytes != b.SignBytes || string(a.Sig) != string(b.Sig) || string(a.Eph) != string(b.Eph) {
		return fmt.Sprintf("at %v what was signed changed: %s/%x/%x became %s/%x/%x", a.HRS, a.SignBytes, a.Sig, a.Eph, b.SignBytes, b.Sig, b.Eph)
	}
	return ""
}

// handWritten puts a configuration in place that another tool or an operator wrote.
func (r *cfgRig) handWritten() {
	t := r.t
	mkdir(filepath.Join(r.home, "state"))
	c := &mCfg{home: r.home, chain: plainIDs[t.Intn(len(plainIDs))]}
	for _, i := range t.Subset(len(goodAddrs), t.Intn(4)) {
		c.nodes = append(c.nodes, goodAddrs[i])
	}
	if t.Chance(3, 4) {
		shares := t.Range(2, 7)
		c.cos = &mCos{shares: shares, listen: "tcp://me:1", timeout: "1s"}
		for _, i := range t.Subset(shares, t.Range(1, shares-1)) {
			c.cos.peers = append(c.cos.peers, mPeer{i + 1, goodAddrs[t.Intn(len(goodAddrs))]})
		}
		c.cos.thr = t.Range(1, len(c.cos.peers)+1)
	} else if len(c.nodes) == 0 {
		c.nodes = []string{"tcp://a:1"}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "# written by hand\nchain-id: %s\nhome-dir: %s\n", c.chain, r.home)
	if len(c.nodes) > 0 {
		b.WriteString("chain-nodes:\n")
	}
	for _, n := range c.nodes {
		fmt.Fprintf(&b, "  - priv-val-addr: %q\n", n)
	}
	if c.cos != nil {
		fmt.Fprintf(&b, "cosigner:\n  rpc-timeout: 1s\n  p2p-listen: \"tcp://me:1\"\n  shares: %d\n  threshold: %d\n  peers:\n", c.cos.shares, c.cos.thr)
		for _, p := range c.cos.peers {
			fmt.Fprintf(&b, "    - {share-id: %d, p2p-addr: %q}\n", p.id, p.addr)
		}
	}
	pbt.Must(ioutil.WriteFile(r.cfgFile(), []byte(b.String()), 0600))
	got, err := readCfg(r.cfgFile())
	pbt.Must(err)
	if got.String() != c.String() {
		pbt.Harness("hand-written configuration: %v read as %v", c, got)
	}
	r.cur = got
	t.Logf("starting from %v", c)
}

func c16Sequence(t *pbt.T) {
	r := newCfgRig(t)
	if t.Chance(1, 2) {
		r.handWritten()
	}
	steps := t.Range(4, 16)
	for i := 0; i < steps; i++ {
		var op cfgOp
		wInit := 1
		if r.cur == nil {
			wInit = 20
		}
		wPeers := 1
		if r.cur != nil && r.cur.cos != nil {
			wPeers = 8
		}
		switch t.Weighted(wInit, 1, 4, wPeers, 1) {
		case 0:
			op = r.initOp(r.chain(), r.cur != nil && t.Bool())
			for j := 0; op.want == mustFail && j < 2 && r.cur == nil; j++ {
				op = r.initOp(r.chain(), false)
			}
		case 1:
			op = r.initOp(r.chain(), true)
		case 2:
			op = r.nodesOp()
		case 3:
			op = r.peersOp()
		case 4:
			op = r.chainOp()
		}
		ok, _, before, after := r.run(op)
		if !ok {
			continue
		}
		r.good++
		switch {
		case op.init != "":
			r.judgeInit(op, before, after)
		case op.args[1] == "chain-id":
			// the files are C17's subject
		default:
			r.othersUntouched(fmt.Sprintf("%q", op.args), before, after, r.cfgFile())
		}
	}
	if r.good >= 2 {
		t.NonTrivial("")
	}
}

var allCommands = [][]string{
	{"config", "nodes", "add", "tcp://a:1"}, {"config", "nodes", "remove", "tcp://a:1"}, {"config", "peers", "add", "tcp://a:1|2"}, {"config", "peers", "remove", "2"},
	{"config", "peers", "set-shares", "3"}, {"config", "chain-id", "set", "x"}, {"cosigner", "address"}, {"cosigner", "address", "cosmos"}, {"cosigner", "start"},
	{"signer", "start"}, {"state", "show"}, {"state", "set", "5"}, {"elect"}, {"elect", "2"},
	{"config", "init", "x"}, {"config", "init", "x", "tcp://a:1", "-c"}, {"config", "init", "x", ":bad"},
}

func c16None(t *pbt.T) {
	r := newCfgRig(t)
	kind := t.Intn(6)
	switch kind {
	case 0: // no home
	case 1:
		mkdir(r.home)
	case 2:
		mkdir(filepath.Join(r.home, "state"))
	case 3: // a directory in its place
		mkdir(r.cfgFile())
	case 4: // not a configuration
		mkdir(r.home)
		pbt.Must(ioutil.WriteFile(r.cfgFile(), []byte([]string{"{", "\t", "a: b: c", "- x", "home-dir: [", "\x00"}[t.Intn(6)]), 0600))
	case 5: // another home has one
		mkdir(filepath.Join(t.Scratch, "other"))
		pbt.Must(ioutil.WriteFile(filepath.Join(t.Scratch, "other", "config.yaml"), []byte("chain-id: x\nchain-nodes:\n- priv-val-addr: tcp://a:1\n"), 0600))
	}
	t.NonTrivial("")
	for i := 0; i < 4; i++ {
		a := allCommands[t.Intn(len(allCommands))]
		before := snapshot(t.Scratch)
		res := runHX(t.Scratch, 40*time.Second, r.args(a)...)
		t.Logf("home %d: %q: status %d", kind, a, res.code)
		if res.timedOut {
			t.FatalfLive("%q without a configuration (kind %d) does not end", a, kind)
		}
		if res.crashed {
			t.Fatalf("%q without a configuration (kind %d) crashes: %s", a, kind, tailStr(res.out, 2500))
		}
		if res.code == 0 {
			t.Fatalf("%q without a configuration (kind %d) succeeds: %s", a, kind, res.out)
		}
		if d := diffSnap(before, snapshot(t.Scratch)); d != "" {
			t.Fatalf("%q without a configuration (kind %d): %s", a, kind, d)
		}
	}
}

// ---------- C17 ----------

// drawStateFile draws the content of a state file as signing leaves it.
func drawStateFile(t *pbt.T, share bool) string {
	m := Msg{Kind: 1 + t.Intn(3), H: int64(1 + t.Intn(30)), R: int64(t.Intn(3)), Block: t.Intn(5), TS: t.Intn(len(tsPool))}
	switch t.Intn(8) {
	case 0:
		return `{"height":"0","round":"0","step":0}`
	case 1:
		return fmt.Sprintf(`{"height":"%d","round":"0","step":0}`, m.H) // as state set leaves it
	case 2:
		m.H = []int64{1 << 62, 9223372036854775807, 9223372036854775806}[t.Intn(3)]
	}
	s := fmt.Sprintf("{\n  \"height\": \"%d\",\n  \"round\": \"%d\",\n  \"step\": %d,\n", m.H, m.R, m.Kind)
	if share {
		s += fmt.Sprintf("  \"ephemeral_public\": %q,\n", base64.StdEncoding.EncodeToString(t.Bytes(32)))
	}
	return s + fmt.Sprintf("  \"signature\": %q,\n  \"signbytes\": %q\n}", base64.StdEncoding.EncodeToString(t.Bytes(t.Range(1, 64))), strings.ToUpper(hex.EncodeToString(m.SignBytes())))
}

func (r *cfgRig) stored(snap map[string]string, chain, kind string) (fs fileState, exists, valid bool) {
	s, ok := snap[r.rel(r.statePath(chain, kind))]
	if !ok {
		return fs, false, false
	}
	fs, err := parseStateStr(s)
	return fs, true, err == nil
}

func c17Sequence(t *pbt.T) {
	r := newCfgRig(t)
	if t.Chance(1, 4) {
		r.handWritten()
	}
	kinds := []string{pvKind, shareKind}
	marked := false
	steps := t.Range(6, 16)
	for i := 0; i < steps; i++ {
		wInit := 1
		if r.cur == nil {
			wInit = 12
		}
		switch t.Weighted(wInit, 4, 3, 2, 4) {
		case 0:
			op := r.initOp(r.chain(), r.cur != nil)
			for j := 0; op.want == mustFail && j < 3; j++ {
				op = r.initOp(r.chain(), r.cur != nil)
			}
			if ok, _, before, after := r.run(op); ok {
				r.judgeInit(op, before, after)
			}
		case 1: // signing goes on, or files get lost
			if r.cur == nil {
				continue
			}
			mkdir(filepath.Join(r.home, "state"))
			chain := r.cur.chain
			if t.Chance(1, 4) {
				chain = plainIDs[t.Intn(len(plainIDs))]
			}
			if t.Bool() {
				// both, close to each other
				base := 1 + t.Intn(30)
				for k, n := range kinds {
					h := base + t.Intn(3)
					s := fmt.Sprintf(`{"height":"%d","round":"%d","step":%d,"signature":"AAEC","signbytes":"0A0B"}`, h, t.Intn(2), 1+t.Intn(3))
					if k == 1 && t.Bool() {
						s = fmt.Sprintf(`{"height":"%d","round":"0","step":%d,"ephemeral_public":"AQID"}`, h, t.Intn(4))
					}
					pbt.Must(ioutil.WriteFile(r.statePath(chain, n), []byte(s), 0600))
					t.Logf("%s%s is at %v", chain, n, parseState(s).HRS)
				}
				marked = true
				continue
			}
			k := t.Intn(2)
			f := r.statePath(chain, kinds[k])
			switch t.Weighted(10, 1, 1) {
			case 0:
				s := drawStateFile(t, k == 1)
				pbt.Must(ioutil.WriteFile(f, []byte(s), 0600))
				t.Logf("%s is at %v", filepath.Base(f), parseState(s).HRS)
				marked = true
			case 1:
				_ = os.Remove(f)
				t.Logf("%s is lost", filepath.Base(f))
			case 2:
				s := drawStateFile(t, k == 1)
				s = s[:t.Intn(len(s))]
				pbt.Must(ioutil.WriteFile(f, []byte(s), 0600))
				t.Logf("%s is damaged", filepath.Base(f))
			}
		case 2:
			marked2 := r.setState()
			if marked2 && marked {
				t.NonTrivial("")
			}
		case 3:
			r.showState()
		case 4:
			if r.setChain() && marked {
				t.NonTrivial("")
			}
		}
	}
}

func (r *cfgRig) setState() bool {
	t := r.t
	snap := snapshot(t.Scratch)
	var pv, sh fileState
	var pvE, pvOK, shE, shOK bool
	top := int64(5)
	if r.cur != nil {
		pv, pvE, pvOK = r.stored(snap, r.cur.chain, pvKind)
		sh, shE, shOK = r.stored(snap, r.cur.chain, shareKind)
		top = pv.HRS.H
		if t.Bool() {
			top = sh.HRS.H
		}
	}
	arg := ""
	switch t.Weighted(8, 2, 2) {
	case 0:
		d := int64(t.Range(-3, 4))
		if d > 0 && top > 1<<62 {
			d = 0
		}
		arg = fmt.Sprint(top + d)
	case 1:
		arg = fmt.Sprint(drawI64(t))
	case 2:
		arg = []string{"x", "", "1.5", "9223372036854775808", "0x10", "5 ", "1e3", "99999999999999999999"}[t.Intn(8)]
	}
	if strings.HasPrefix(arg, "-") {
		arg = "0"
	}
	h, err := strconv.ParseInt(arg, 10, 64)
	op := cfgOp{args: []string{"state", "set", arg}, next: r.cur.clone()}
	switch {
	case r.cur == nil:
		op.want, op.why = mustFail, "no configuration"
	case err != nil:
		op.want, op.why = mustFail, "not a height"
	case !pvOK || shE && !shOK || !shE && r.cur.cos != nil:
		op.want, op.why = mustFail, "no usable state"
	case h <= pv.HRS.H || shE && h <= sh.HRS.H:
		op.want, op.why = mustFail, fmt.Sprintf("states are at %v and %v", pv.HRS, sh.HRS)
	case shE:
		op.want = mustWork
	}
	_ = pvE
	ok, _, before, after := r.run(op)
	if !ok {
		return false
	}
	want := fileState{HRS: HRS{h, 0, 0}}
	for _, k := range []string{pvKind, shareKind} {
		now, e, v := r.stored(after, r.cur.chain, k)
		if k == shareKind && !shE && !e {
			continue // a single signer has none
		}
		if !v {
			t.Fatalf("state set %s leaves an unusable state file %q", arg, after[r.rel(r.statePath(r.cur.chain, k))])
		}
		if d := diffState(want, now); d != "" {
			t.Fatalf("state set %s: %s state: %s", arg, k, d)
		}
	}
	r.othersUntouched("state set", before, after, r.statePath(r.cur.chain, pvKind), r.statePath(r.cur.chain, shareKind))
	return true
}

var (
	reShow  = regexp.MustCompile(`(?s)Private Validator State:\n(.*)Share Sign State:\n(.*)$`)
	reField = regexp.MustCompile(`(?m)^\s*([A-Za-z ]+?):\s*(.*)$`)
)

func (r *cfgRig) showState() {
	t := r.t
	snap := snapshot(t.Scratch)
	op := cfgOp{args: []string{"state", "show"}, next: r.cur.clone()}
	var pv, sh fileState
	var pvOK, shE, shOK bool
	if r.cur == nil {
		op.want, op.why = mustFail, "no configuration"
	} else {
		pv, _, pvOK = r.stored(snap, r.cur.chain, pvKind)
		sh, shE, shOK = r.stored(snap, r.cur.chain, shareKind)
		switch {
		case !pvOK || shE && !shOK || !shE && r.cur.cos != nil:
			op.want, op.why = mustFail, "no usable state"
		case shE:
			op.want = mustWork
		}
	}
	ok, out, before, after := r.run(op)
	if !ok {
		return
	}
	r.othersUntouched("state show", before, after)
	if !shE {
		return
	}
	m := reShow.FindStringSubmatch(out)
	if m == nil {
		t.Fatalf("state show prints %q", out)
	}
	for i, fs := range []fileState{pv, sh} {
		want := map[string]string{"Height": fmt.Sprint(fs.HRS.H), "Round": fmt.Sprint(fs.HRS.R), "Step": fmt.Sprint(fs.HRS.S)}
		if fs.Eph != nil {
			want["Ephemeral Public Key"] = base64.StdEncoding.EncodeToString(fs.Eph)
		}
		if fs.Sig != nil {
			want["Signature"] = base64.StdEncoding.EncodeToString(fs.Sig)
		}
		if fs.SignBytes != "" {
			want["SignBytes"] = strings.ToUpper(fs.SignBytes)
		}
		got := map[string]string{}
		for _, f := range reField.FindAllStringSubmatch(m[1+i], -1) {
			got[f[1]] = f[2]
			if f[1] == "SignBytes" {
				got[f[1]] = strings.ToUpper(f[2])
			}
		}
		var ks []string
		for k := range want {
			ks = append(ks, k)
		}
		for k := range got {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if got[k] != want[k] {
				t.Fatalf("state show prints %s %q, stored is %q: %q", k, got[k], want[k], out)
			}
		}
	}
}

func (r *cfgRig) setChain() bool {
	t := r.t
	snap := snapshot(t.Scratch)
	op := r.chainOp()
	c := op.args[3]
	var old string
	if r.cur != nil {
		old = r.cur.chain
		kinds := []string{pvKind}
		if r.cur.cos != nil {
			kinds = append(kinds, shareKind)
		}
		good, taken := true, false
		for _, k := range []string{pvKind, shareKind} {
			_, e, _ := r.stored(snap, c, k)
			if e && c != old && (k == pvKind || r.cur.cos != nil) {
				taken = true
			}
			good = good && !e
		}
		for _, k := range kinds {
			_, e, v := r.stored(snap, old, k)
			good = good && e && v
		}
		switch {
		case op.want == mustFail:
		case taken && c != old:
			op.want, op.why = mustFail, "states of that chain exist"
		case good && chainOK(c) && c != old:
			op.want = mustWork
		}
	}
	ok, _, before, after := r.run(op)
	if !ok {
		return false
	}
	if c == old {
		r.othersUntouched("chain-id set", before, after, r.cfgFile())
		return false
	}
	allowed := []string{r.cfgFile()}
	for _, k := range []string{pvKind, shareKind} {
		from, to := r.statePath(old, k), r.statePath(c, k)
		a, had := before[r.rel(from)]
		b, has := after[r.rel(to)]
		still, left := after[r.rel(from)]
		allowed = append(allowed, from, to)
		prev, taken := before[r.rel(to)]
		if k == shareKind && r.cur.cos == nil {
			// not in use; may stay or move, never be overwritten
			if taken && (prev != b || !has) {
				t.Fatalf("chain-id set %q discards a stored share state: %q became %q", c, prev, b)
			}
			if had && !(left && still == a) && !(has && b == a) {
				t.Fatalf("chain-id set %q loses a stored share state: %q", c, a)
			}
			continue
		}
		if taken {
			t.Fatalf("chain-id set %q succeeds over an existing state %q", c, prev)
		}
		if had && (!has || a != b) {
			t.Fatalf("chain-id set %q does not carry the state over: %q became %q (%v)", c, a, b, has)
		}
		if !had && has && parseState(b).HRS != (HRS{}) {
			t.Fatalf("chain-id set %q invents a state %q", c, b)
		}
		if left && still != a {
			t.Fatalf("chain-id set %q leaves the old chain's state changed: %q became %q", c, a, still)
		}
	}
	r.othersUntouched("chain-id set", before, after, allowed...)
	return true
}
