package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"

	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
)

func init() { commands["codec"] = codecCommand }

// codec applies the damage scripts TLC enumerated for Codec.tla to real
// payloads, and loads what is left: it has to be an error or the original.

type codecConfig struct {
	Scripts string `json:"scripts"`
	Out     string `json:"out"`
	Shard   int    `json:"shard"`
	Shards  int    `json:"shards"`
	Seed    int64  `json:"seed"`
	Times   int    `json:"times"`  // each script on each payload
	Deep    bool   `json:"deep"`   // every single damage of larger payloads
	Rounds  int    `json:"rounds"` // byte strings encoded and decoded
}

type payload struct {
	name string
	enc  string
	load func(enc []byte) (same bool, err error)
}

type damage struct {
	D string `json:"d"`
	I int    `json:"i"`
	J int    `json:"j"`
}

func rawPayload(name string, b []byte) (payload, error) {
	enc, err := embed.Encode(b)
	if err != nil {
		return payload{}, err
	}
	return payload{name, string(enc), func(e []byte) (bool, error) {
		got, err := embed.Decode(e)
		return bytes.Equal(got, b), err
	}}, nil
}

func fsPayload(rng *rand.Rand, files int) (payload, error) {
	pk, err := mem.New(ownInfo("/srv/app"))
	if err != nil {
		return payload{}, err
	}
	for i := 0; i < files; i++ {
		d := fmt.Sprintf("/d%d", rng.Intn(3))
		if err := pk.MkdirAll(d, 0755); err != nil {
			return payload{}, err
		}
		f, err := pk.Create(fmt.Sprintf("%s/f%d", d, i))
		if err != nil {
			return payload{}, err
		}
		b := make([]byte, rng.Intn(300))
		rng.Read(b)
		if i%3 == 0 {
			b = []byte(strings.Repeat("text ", rng.Intn(50)))
		}
		if _, err := f.Write(b); err != nil {
			return payload{}, err
		}
		if err := f.Close(); err != nil {
			return payload{}, err
		}
	}
	b, err := pk.MarshalJSON()
	if err != nil {
		return payload{}, err
	}
	var want interface{}
	if err := json.Unmarshal(b, &want); err != nil {
		return payload{}, err
	}
	enc, err := embed.Encode(b)
	if err != nil {
		return payload{}, err
	}
	return payload{fmt.Sprintf("file system of %d files", files), string(enc), func(e []byte) (bool, error) {
		got, err := mem.UnmarshalEmbed(e)
		if err != nil {
			return false, err
		}
		if got == nil {
			return false, nil
		}
		b, err := got.MarshalJSON()
		if err != nil {
			return false, nil
		}
		var have interface{}
		if err := json.Unmarshal(b, &have); err != nil {
			return false, nil
		}
		return jsonEqual(want, have), nil
	}}, nil
}

const hexDigits = "0123456789abcdef"

// cells cuts a payload into the cells of the specification
func cells(enc string) []string {
	n := len(enc)
	if n < 40 {
		return nil
	}
	body := enc[20 : n-16]
	h := len(body) / 4 * 2
	return []string{enc[:8], enc[8:20], body[:h], body[h:], enc[n-16 : n-8], enc[n-8:]}
}

func alter(rng *rand.Rand, s string) string {
	if s == "" {
		return s
	}
	i := rng.Intn(len(s))
	c := hexDigits[rng.Intn(16)]
	for strings.EqualFold(string(c), string(s[i])) {
		c = hexDigits[rng.Intn(16)]
	}
	if rng.Intn(12) == 0 {
		c = "gG \n\x00\xff-"[rng.Intn(7)]
	}
	return s[:i] + string([]byte{c}) + s[i+1:]
}

func randomHex(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = hexDigits[rng.Intn(16)]
	}
	return string(b)
}

var junks = []func(rng *rand.Rand) string{
	func(rng *rand.Rand) string { return randomHex(rng, 1) },
	func(rng *rand.Rand) string { return randomHex(rng, 2) },
	func(rng *rand.Rand) string { return randomHex(rng, 2+2*rng.Intn(40)) },
	func(rng *rand.Rand) string { return "00" },
	func(rng *rand.Rand) string { return strings.Repeat("00", 1+rng.Intn(600)) },
	func(rng *rand.Rand) string { return "1f8b08" },
	func(rng *rand.Rand) string { return "\n" },
	func(rng *rand.Rand) string { return " zz" },
	func(rng *rand.Rand) string { return "20" },
}

func applyDamage(rng *rand.Rand, p []string, d damage, orig, other, empty, space string) []string {
	i := d.I - 1
	out := append([]string{}, p...)
	insert := func(at int, s ...string) []string {
		return append(append(append([]string{}, p[:at]...), s...), p[at:]...)
	}
	switch d.D {
	case "alter":
		out[i] = alter(rng, out[i])
	case "cut":
		out = out[:i]
	case "cutin":
		if len(p[i]) > 0 {
			out = append(out[:i], p[i][:rng.Intn(len(p[i]))])
		}
	case "drop":
		out = append(out[:i], p[i+1:]...)
	case "dropin":
		if s := p[i]; len(s) > 1 {
			n := 1 + rng.Intn(2)
			at := rng.Intn(len(s) - n + 1)
			out[i] = s[:at] + s[at+n:]
		}
	case "dup":
		out = insert(i, p[i])
	case "insert":
		out = insert(i, junks[rng.Intn(len(junks))](rng))
	case "swap":
		out[i], out[d.J-1] = out[d.J-1], out[i]
	default:
		w := strings.SplitN(d.D, "-", 2)
		var more []string
		switch w[1] {
		case "junk":
			more = []string{junks[rng.Intn(len(junks))](rng)}
		case "self":
			more = append(more, p...)
		case "other":
			more = cells(other)
		case "empty":
			more = cells(empty)
		case "space":
			more = []string{[]string{"\n", " ", "20", "0a", space}[rng.Intn(5)]}
		}
		if w[0] == "append" {
			out = insert(len(p), more...)
		} else {
			out = insert(0, more...)
		}
	}
	return out
}

type codecResult struct {
	Loads   int            `json:"loads"`
	Classes map[string]int `json:"classes"`
	Bad     []Ev           `json:"bad"`
}

func (r *codecResult) load(p payload, enc string, must bool, what string) {
	r.Loads++
	defer calling("load " + what)()
	class := func() (c string) {
		defer func() {
			if x := recover(); x != nil {
				c = fmt.Sprint("panic: ", x)
			}
		}()
		same, err := p.load([]byte(enc))
		if err != nil {
			return "error"
		}
		if same {
			return "same"
		}
		return "different"
	}()
	r.Classes[strings.SplitN(class, ":", 2)[0]]++
	if class == "same" || class == "error" && !must {
		return
	}
	if len(r.Bad) < 20 {
		show := enc
		if len(show) > 4000 {
			show = show[:4000] + "..."
		}
		r.Bad = append(r.Bad, Ev{"payload": p.name, "damage": what, "result": class, "loaded": show, "original": len(p.enc)})
	}
}

// replacedBy is true if nothing but another payload is left, give or take
// the bytes of its header that have no meaning
func replacedBy(got, p string) bool {
	return len(got) == len(p) && len(p) > 20 && strings.EqualFold(got[:6]+got[20:], p[:6]+p[20:])
}

func codecCommand(args []string) error {
	var c codecConfig
	b, err := os.ReadFile(args[0])
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, &c); err != nil {
		return err
	}
	rng := rand.New(rand.NewSource(c.Seed*1000 + int64(c.Shard)))
	res := &codecResult{Classes: map[string]int{}, Bad: []Ev{}}

	var ps []payload
	add := func(p payload, err error) error {
		ps = append(ps, p)
		return err
	}
	random := make([]byte, 700)
	rng.Read(random)
	for _, e := range []error{
		add(rawPayload("no bytes", nil)),
		add(rawPayload("a short text", []byte("hello, embedded world"))),
		add(rawPayload("random bytes", random)),
		add(rawPayload("repeated text", []byte(strings.Repeat("{\"a\":1} \x00\xff", 300)))),
		add(rawPayload("a payload of a payload", []byte(ps0(ps)))),
		add(fsPayload(rng, 0)), add(fsPayload(rng, 1)), add(fsPayload(rng, 9)),
	} {
		if e != nil {
			return e
		}
	}
	big := make([]byte, 300000)
	rng.Read(big)
	bigp, err := rawPayload("300000 random bytes", big)
	if err != nil {
		return err
	}
	other, empty := ps[1].enc, ps[0].enc
	spaceEnc, err := embed.Encode([]byte("  \n"))
	if err != nil {
		return err
	}

	f, err := os.Open(c.Scripts)
	if err != nil {
		return err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for n := 0; sc.Scan(); {
		line := sc.Text()
		if !strings.HasPrefix(line, `"CODEC `) {
			continue
		}
		n++
		if n%c.Shards != c.Shard {
			continue
		}
		var s string
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			return err
		}
		var k struct {
			S        []damage `json:"s"`
			Pristine bool     `json:"pristine"`
			Replaced bool     `json:"replaced"`
		}
		if err := json.Unmarshal([]byte(s[6:]), &k); err != nil {
			return err
		}
		if k.Replaced {
			continue
		}
		list := ps
		if n%50 == 0 {
			list = append(append([]payload{}, ps...), bigp)
		}
		for _, p := range list {
			if p.enc == other || p.enc == empty {
				// its own replacement
				if strings.Contains(s, "-other") || strings.Contains(s, "-empty") {
					continue
				}
			}
			for t := 0; t < c.Times; t++ {
				cs := cells(p.enc)
				if cs == nil {
					continue
				}
				for _, d := range k.S {
					cs = applyDamage(rng, cs, d, p.enc, other, empty, string(spaceEnc))
				}
				got := strings.Join(cs, "")
				if replacedBy(got, other) || replacedBy(got, empty) || replacedBy(got, string(spaceEnc)) {
					continue
				}
				res.load(p, got, k.Pristine, s)
			}
		}
	}
	if err := sc.Err(); err != nil {
		return err
	}

	// every single damage, at every place
	for i, p := range ps {
		if !c.Deep && i != 1 && i != 6 {
			continue
		}
		e := p.enc
		for at := 0; at <= len(e); at++ {
			if at%c.Shards != c.Shard {
				continue
			}
			res.load(p, e[:at], at == len(e), fmt.Sprint("cut at ", at))
			if at == len(e) {
				break
			}
			for _, ch := range []byte(hexDigits + "ABCDEFg") {
				if ch != e[at] {
					res.load(p, e[:at]+string([]byte{ch})+e[at+1:], false, fmt.Sprintf("character %d is now %q", at, ch))
				}
			}
			res.load(p, e[at+1:], false, fmt.Sprint("first ", at+1, " removed"))
			res.load(p, e[:at]+e[at+1:], false, fmt.Sprint("character removed at ", at))
			if at+2 <= len(e) {
				res.load(p, e[:at]+e[at+2:], false, fmt.Sprint("two characters removed at ", at))
				res.load(p, e[:at]+e[at+1:at+2]+e[at:at+1]+e[at+2:], e[at] == e[at+1], fmt.Sprint("characters exchanged at ", at))
			}
			res.load(p, e[:at]+"0"+e[at:], false, fmt.Sprint("0 inserted at ", at))
			res.load(p, e[:at]+"00"+e[at:], false, fmt.Sprint("00 inserted at ", at))
			res.load(p, e[:at]+e[at:]+e[at:], false, fmt.Sprint("the rest from ", at, " repeated"))
		}
	}

	// and back
	for i := 0; i < c.Rounds; i++ {
		n := rng.Intn(2000)
		switch i % 10 {
		case 0:
			n = i % 300
		case 1:
			n = 32768*(1+rng.Intn(4)) + rng.Intn(3) - 1
		case 2:
			n = rng.Intn(1 << 20)
		}
		b := make([]byte, n)
		switch rng.Intn(3) {
		case 0:
			rng.Read(b)
		case 1:
			for j := range b {
				b[j] = "abc\x00"[rng.Intn(4)]
			}
		}
		p, err := rawPayload(fmt.Sprint(n, " bytes"), b)
		if err != nil {
			res.Bad = append(res.Bad, Ev{"payload": fmt.Sprint(n, " bytes"), "damage": "none", "result": "not encoded: " + err.Error()})
			continue
		}
		res.load(p, p.enc, true, "none")
	}
	return writeJSON(c.Out, res)
}

func ps0(ps []payload) string {
	if len(ps) == 0 {
		return ""
	}
	return ps[len(ps)-1].enc
}
