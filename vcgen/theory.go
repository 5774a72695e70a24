package main

import (
	"fmt"
	"os"
	"strings"
)

// thePreamble is the expanded theory text every solver starts from.
var thePreamble string

// elemOf maps a sequence letter to the sort of its elements.
var elemOf = map[string]string{}

func seqLetter(sort string) string {
	if strings.HasPrefix(sort, "Seq") {
		return sort[3:]
	}
	return ""
}

// letterOf maps an element sort to the letter of the sequences of it.
func letterOf(elem string) string {
	for l, e := range elemOf {
		if e == elem {
			return l
		}
	}
	return ""
}

// expandTheory gives the preamble; a block ";@only P" ... ";@end" belongs to property P.
func expandTheory(path, prop string) (string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	lines := strings.Split(string(b), "\n")
	for _, l := range lines {
		if strings.HasPrefix(l, ";@seq ") {
			f := strings.Fields(l)
			elemOf[f[1]] = f[2]
		}
	}
	var out []string
	skip := false
	for _, l := range lines {
		if strings.HasPrefix(l, ";@only ") {
			skip = !contains(strings.Fields(l)[1:], prop)
			continue
		}
		if strings.HasPrefix(l, ";@end") {
			skip = false
			continue
		}
		if skip {
			continue
		}
		switch {
		case strings.HasPrefix(l, ";@seqsort "):
			for _, x := range strings.Fields(l)[1:] {
				out = append(out, "(declare-sort Seq"+x+")")
			}
		case strings.HasPrefix(l, ";@seq "):
			f := strings.Fields(l)
			out = append(out, seqAxioms(f[1], f[2]))
		case strings.HasPrefix(l, ";@alen "):
			for _, x := range strings.Fields(l)[1:] {
				out = append(out, rpl(alenText, "@@", x, "@", x[:1]))
			}
		case strings.HasPrefix(l, ";@ex "):
			f := strings.SplitN(l, " ", 4)
			out = append(out, exAxioms(f[1], f[2], f[3]))
		case strings.HasPrefix(l, ";@max "):
			f := strings.SplitN(l, " ", 4)
			out = append(out, maxAxioms(f[1], f[2], f[3]))
		case strings.HasPrefix(l, ";@chk2 "):
			f := strings.SplitN(l, " ", 3)
			out = append(out, chk2Axioms(f[1], f[2]))
		case strings.HasPrefix(l, ";@all2 "):
			f := strings.SplitN(l, " ", 3)
			out = append(out, all2Axioms(f[1], f[2]))
		case strings.HasPrefix(l, ";@all "):
			f := strings.SplitN(l, " ", 4)
			out = append(out, allAxioms(f[1], f[2], f[3]))
		default:
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n"), nil
}

func rpl(s string, kv ...string) string { return strings.NewReplacer(kv...).Replace(s) }

func seqAxioms(x, e string) string {
	zero := ""
	switch e {
	case "Real":
		zero = "0.0"
	case "Int":
		zero = "0"
	}
	s := `(declare-fun len@ (Seq@) Int)
(declare-fun at@ (Seq@ Int) #)
(declare-fun snoc@ (Seq@ #) Seq@)
(declare-fun upd@ (Seq@ Int #) Seq@)
(declare-fun cat@ (Seq@ Seq@) Seq@)
(declare-fun rep@ (Int #) Seq@)
(declare-fun sub@ (Seq@ Int Int) Seq@)
(declare-const empty@ Seq@)
(assert (forall ((s Seq@)) (! (>= (len@ s) 0) :pattern ((len@ s)))))
(assert (= (len@ empty@) 0))
(assert (forall ((s Seq@) (x #)) (! (and (= (len@ (snoc@ s x)) (+ (len@ s) 1)) (= (at@ (snoc@ s x) (len@ s)) x)) :pattern ((snoc@ s x)))))
(assert (forall ((s Seq@) (x #) (k Int)) (! (=> (and (<= 0 k) (<= k (len@ s))) (= (at@ (snoc@ s x) k) (ite (= k (len@ s)) x (at@ s k)))) :pattern ((at@ (snoc@ s x) k)))))
(assert (forall ((s Seq@) (x #) (k Int)) (! (=> (and (<= 0 k) (< k (len@ s))) (= (at@ (snoc@ s x) k) (at@ s k))) :pattern ((snoc@ s x) (at@ s k)))))
(assert (forall ((s Seq@) (i Int) (x #)) (! (and (= (len@ (upd@ s i x)) (len@ s)) (=> (and (<= 0 i) (< i (len@ s))) (= (at@ (upd@ s i x) i) x))) :pattern ((upd@ s i x)))))
(assert (forall ((s Seq@) (i Int) (x #) (k Int)) (! (=> (and (<= 0 i) (< i (len@ s))) (= (at@ (upd@ s i x) k) (ite (= k i) x (at@ s k)))) :pattern ((at@ (upd@ s i x) k)))))
(assert (forall ((s Seq@) (i Int) (x #) (k Int)) (! (=> (and (<= 0 i) (< i (len@ s))) (= (at@ (upd@ s i x) k) (ite (= k i) x (at@ s k)))) :pattern ((upd@ s i x) (at@ s k)))))
(assert (forall ((s Seq@) (t Seq@)) (! (= (len@ (cat@ s t)) (+ (len@ s) (len@ t))) :pattern ((cat@ s t)))))
(assert (forall ((s Seq@) (t Seq@) (k Int)) (! (=> (and (<= 0 k) (< k (+ (len@ s) (len@ t)))) (= (at@ (cat@ s t) k) (ite (< k (len@ s)) (at@ s k) (at@ t (- k (len@ s)))))) :pattern ((at@ (cat@ s t) k)))))
(assert (forall ((s Seq@) (t Seq@)) (! (and (=> (= (len@ s) 0) (= (cat@ s t) t)) (=> (= (len@ t) 0) (= (cat@ s t) s))) :pattern ((cat@ s t)))))
(assert (forall ((n Int) (x #)) (! (=> (>= n 0) (= (len@ (rep@ n x)) n)) :pattern ((rep@ n x)))))
(assert (forall ((n Int) (x #) (k Int)) (! (=> (and (<= 0 k) (< k n)) (= (at@ (rep@ n x) k) x)) :pattern ((at@ (rep@ n x) k)))))
(assert (forall ((s Seq@) (a Int) (b Int)) (! (and (=> (and (<= 0 a) (<= a b) (<= b (len@ s))) (= (len@ (sub@ s a b)) (- b a))) (=> (and (= a 0) (= b (len@ s))) (= (sub@ s a b) s))) :pattern ((sub@ s a b)))))
(assert (forall ((s Seq@) (a Int) (b Int) (k Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (len@ s)) (<= 0 k) (< k (- b a))) (= (at@ (sub@ s a b) k) (at@ s (+ a k)))) :pattern ((at@ (sub@ s a b) k)))))`
	_ = zero
	return rpl(s, "@", x, "#", e)
}

func allAxioms(name, x, pred string) string {
	s := `(declare-fun NAME (Seq@) Bool)
(declare-fun w_NAME (Seq@) Int)
(define-fun p_NAME ((x #)) Bool PRED)
(assert (forall ((s Seq@) (k Int)) (! (=> (and (NAME s) (<= 0 k) (< k (len@ s))) (p_NAME (at@ s k))) :pattern ((NAME s) (at@ s k)))))
(assert (forall ((s Seq@)) (! (or (NAME s) (and (<= 0 (w_NAME s)) (< (w_NAME s) (len@ s)) (not (p_NAME (at@ s (w_NAME s)))))) :pattern ((NAME s)))))
;!lemma hint # (at@ (snoc@ s! x!) (w_NAME s!)) hint # (at@ (snoc@ s! x!) (len@ s!))
(assert (forall ((s Seq@) (x #)) (! (= (NAME (snoc@ s x)) (and (NAME s) (p_NAME x))) :pattern ((NAME (snoc@ s x))))))
;!lemma hint # (at@ (cat@ s! t!) (w_NAME s!)) hint # (at@ (cat@ s! t!) (+ (len@ s!) (w_NAME t!)))
(assert (forall ((s Seq@) (t Seq@)) (! (= (NAME (cat@ s t)) (and (NAME s) (NAME t))) :pattern ((NAME (cat@ s t))))))
;!lemma
(assert (forall ((s Seq@)) (! (=> (= (len@ s) 0) (NAME s)) :pattern ((NAME s)))))`
	return rpl(s, "NAME", name, "@", x, "#", elemOf[x], "PRED", pred)
}

func all2Axioms(x, pred string) string {
	s := `(declare-fun rect2@ (Seq@@) Bool)
(declare-fun wr2@ (Seq@@) Int)
(assert (forall ((s Seq@@) (k Int)) (! (=> (and (rect2@ s) (<= 0 k) (< k (len@@ s))) (= (len@ (at@@ s k)) (len@ (at@@ s 0)))) :pattern ((rect2@ s) (at@@ s k)))))
(assert (forall ((s Seq@@)) (! (=> (rect2@ s) (and (> (len@@ s) 0) (> (len@ (at@@ s 0)) 0))) :pattern ((rect2@ s)))))
(assert (forall ((s Seq@@)) (! (=> (and (> (len@@ s) 0) (> (len@ (at@@ s 0)) 0)) (or (rect2@ s) (and (<= 0 (wr2@ s)) (< (wr2@ s) (len@@ s)) (not (= (len@ (at@@ s (wr2@ s))) (len@ (at@@ s 0))))))) :pattern ((rect2@ s)))))
(declare-fun wf2@ (Seq@@) Bool)
(declare-fun wi2@ (Seq@@) Int)
(declare-fun wj2@ (Seq@@) Int)
(define-fun p2@ ((x #)) Bool PRED)
(assert (forall ((s Seq@@) (i Int) (j Int)) (! (=> (and (wf2@ s) (<= 0 i) (< i (len@@ s)) (<= 0 j) (< j (len@ (at@@ s i)))) (p2@ (at@ (at@@ s i) j))) :pattern ((wf2@ s) (at@ (at@@ s i) j)))))
(assert (forall ((s Seq@@)) (! (or (wf2@ s) (and (<= 0 (wi2@ s)) (< (wi2@ s) (len@@ s)) (<= 0 (wj2@ s)) (< (wj2@ s) (len@ (at@@ s (wi2@ s)))) (not (p2@ (at@ (at@@ s (wi2@ s)) (wj2@ s)))))) :pattern ((wf2@ s)))))`
	return rpl(s, "@", x, "#", elemOf[x], "PRED", pred)
}

// exAxioms: (NAME s n d) says that one of the first n elements x of s satisfies PRED(x, d).
func exAxioms(name, x, pred string) string {
	s := `(declare-fun NAME (Seq@ Int Int) Bool)
(declare-fun w_NAME (Seq@ Int Int) Int)
(define-fun p_NAME ((x #) (d Int)) Bool PRED)
(assert (forall ((s Seq@) (n Int) (d Int)) (! (=> (<= n 0) (not (NAME s n d))) :pattern ((NAME s n d)))))
(assert (forall ((s Seq@) (n Int) (d Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k) (< k (len@ s))) (= (NAME s n d) (or (NAME s k d) (p_NAME (at@ s k) d)))) :pattern ((NAME s n d) (at@ s k)))))
;!lemma induct n
(assert (forall ((s Seq@) (n Int) (d Int) (k Int)) (! (=> (and (<= 0 k) (< k n) (<= n (len@ s)) (p_NAME (at@ s k) d)) (NAME s n d)) :pattern ((NAME s n d) (at@ s k)))))
;!lemma induct n witness (w_NAME s n d)
(assert (forall ((s Seq@) (n Int) (d Int)) (! (=> (and (NAME s n d) (<= n (len@ s))) (let ((k (w_NAME s n d))) (and (<= 0 k) (< k n) (p_NAME (at@ s k) d)))) :pattern ((NAME s n d)))))`
	return rpl(s, "NAME", name, "@", x, "#", elemOf[x], "PRED", pred)
}

// maxAxioms: (NAME s n) is the largest of 0 and PRED(x) over the first n elements x of s.
func maxAxioms(name, x, pred string) string {
	s := `(declare-fun NAME (Seq@ Int) Int)
(declare-fun w_NAME (Seq@ Int) Int)
(define-fun p_NAME ((x #)) Int PRED)
(assert (forall ((s Seq@) (n Int)) (! (and (=> (<= n 0) (= (NAME s n) 0)) (>= (NAME s n) 0)) :pattern ((NAME s n)))))
(assert (forall ((s Seq@) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k) (< k (len@ s))) (= (NAME s n) (ite (> (p_NAME (at@ s k)) (NAME s k)) (p_NAME (at@ s k)) (NAME s k)))) :pattern ((NAME s n) (at@ s k)))))
;!lemma induct n
(assert (forall ((s Seq@) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n) (<= n (len@ s))) (>= (NAME s n) (p_NAME (at@ s k)))) :pattern ((NAME s n) (at@ s k)))))
;!lemma hint # (at@ s! 0)
(assert (forall ((s Seq@) (n Int)) (! (=> (and (< 0 n) (<= n (len@ s))) (>= (NAME s n) (p_NAME (at@ s 0)))) :pattern ((NAME s n)))))
;!lemma induct n witness (w_NAME s n)
(assert (forall ((s Seq@) (n Int)) (! (=> (and (> (NAME s n) 0) (<= n (len@ s))) (let ((k (w_NAME s n))) (and (<= 0 k) (< k n) (= (NAME s n) (p_NAME (at@ s k)))))) :pattern ((NAME s n)))))`
	return rpl(s, "NAME", name, "@", x, "#", elemOf[x], "PRED", pred)
}

func chk2Axioms(x, pred string) string {
	s := `(declare-fun recm@ (Seq@@) Bool)
(declare-fun wrc@ (Seq@@) Int)
(assert (forall ((s Seq@@) (k Int)) (! (=> (and (recm@ s) (<= 0 k) (< k (len@@ s))) (= (len@ (at@@ s k)) (len@ (at@@ s 0)))) :pattern ((recm@ s) (at@@ s k)))))
(assert (forall ((s Seq@@)) (! (=> (recm@ s) (> (len@@ s) 0)) :pattern ((recm@ s)))))
(assert (forall ((s Seq@@)) (! (=> (> (len@@ s) 0) (or (recm@ s) (and (<= 0 (wrc@ s)) (< (wrc@ s) (len@@ s)) (not (= (len@ (at@@ s (wrc@ s))) (len@ (at@@ s 0))))))) :pattern ((recm@ s)))))
(declare-fun chk2@ (Seq@@) Bool)
(declare-fun ci2@ (Seq@@) Int)
(declare-fun cj2@ (Seq@@) Int)
(define-fun pc2@ ((x #)) Bool PRED)
(assert (forall ((s Seq@@) (i Int) (j Int)) (! (=> (and (chk2@ s) (<= 0 i) (< i (len@@ s)) (<= 0 j) (< j (len@ (at@@ s i)))) (pc2@ (at@ (at@@ s i) j))) :pattern ((chk2@ s) (at@ (at@@ s i) j)))))
(assert (forall ((s Seq@@)) (! (or (chk2@ s) (and (<= 0 (ci2@ s)) (< (ci2@ s) (len@@ s)) (<= 0 (cj2@ s)) (< (cj2@ s) (len@ (at@@ s (ci2@ s)))) (not (pc2@ (at@ (at@@ s (ci2@ s)) (cj2@ s)))))) :pattern ((chk2@ s)))))`
	return rpl(s, "@", x, "#", elemOf[x], "PRED", pred)
}

// ---- s-expressions ----

type Sx struct {
	A string // atom text, when L is nil
	L []*Sx
	P int // line
}

func (s *Sx) isList() bool { return s.L != nil }

func (s *Sx) head() string {
	if s.L != nil && len(s.L) > 0 && s.L[0].L == nil {
		return s.L[0].A
	}
	return ""
}

func (s *Sx) String() string {
	if s.L == nil {
		return s.A
	}
	p := make([]string, len(s.L))
	for i, x := range s.L {
		p[i] = x.String()
	}
	return "(" + strings.Join(p, " ") + ")"
}

func parseSx(text, file string) ([]*Sx, error) {
	pos, line := 0, 1
	var parse func() (*Sx, error)
	skip := func() {
		for pos < len(text) {
			c := text[pos]
			if c == '\n' {
				line++
				pos++
			} else if c == ' ' || c == '\t' || c == '\r' {
				pos++
			} else if c == ';' {
				for pos < len(text) && text[pos] != '\n' {
					pos++
				}
			} else {
				return
			}
		}
	}
	parse = func() (*Sx, error) {
		skip()
		if pos >= len(text) {
			return nil, fmt.Errorf("%s:%d: unexpected end", file, line)
		}
		if text[pos] == '(' {
			out := &Sx{L: []*Sx{}, P: line}
			pos++
			for {
				skip()
				if pos >= len(text) {
					return nil, fmt.Errorf("%s:%d: unclosed list", file, out.P)
				}
				if text[pos] == ')' {
					pos++
					return out, nil
				}
				x, err := parse()
				if err != nil {
					return nil, err
				}
				out.L = append(out.L, x)
			}
		}
		if text[pos] == ')' {
			return nil, fmt.Errorf("%s:%d: unexpected )", file, line)
		}
		st := pos
		for pos < len(text) && !strings.ContainsRune(" \t\r\n();", rune(text[pos])) {
			pos++
		}
		return &Sx{A: text[st:pos], P: line}, nil
	}
	var out []*Sx
	for {
		skip()
		if pos >= len(text) {
			return out, nil
		}
		x, err := parse()
		if err != nil {
			return nil, err
		}
		out = append(out, x)
	}
}

// subst replaces atoms by the given texts.
func (s *Sx) subst(m map[string]string) string {
	var b strings.Builder
	s.write(&b, m)
	return b.String()
}

func (s *Sx) write(b *strings.Builder, m map[string]string) {
	if s.L == nil {
		if v, ok := m[s.A]; ok {
			b.WriteString(v)
		} else {
			b.WriteString(s.A)
		}
		return
	}
	b.WriteByte('(')
	for i, x := range s.L {
		if i > 0 {
			b.WriteByte(' ')
		}
		x.write(b, m)
	}
	b.WriteByte(')')
}

func (s *Sx) atoms(f func(string)) {
	if s.L == nil {
		f(s.A)
		return
	}
	for _, x := range s.L {
		x.atoms(f)
	}
}

// alenXX(s,n): every row of s has n entries.
const alenText = `(declare-fun alen@@ (Seq@@ Int) Bool)
(declare-fun wl@@ (Seq@@ Int) Int)
(assert (forall ((s Seq@@) (n Int) (k Int)) (! (=> (and (alen@@ s n) (<= 0 k) (< k (len@@ s))) (= (len@ (at@@ s k)) n)) :pattern ((alen@@ s n) (at@@ s k)))))
(assert (forall ((s Seq@@) (n Int)) (! (or (alen@@ s n) (and (<= 0 (wl@@ s n)) (< (wl@@ s n) (len@@ s)) (not (= (len@ (at@@ s (wl@@ s n))) n)))) :pattern ((alen@@ s n)))))
;!lemma hint Seq@ (at@@ (snoc@@ s! x!) (wl@@ s! n!)) hint Seq@ (at@@ (snoc@@ s! x!) (len@@ s!))
(assert (forall ((s Seq@@) (n Int) (x Seq@)) (! (= (alen@@ (snoc@@ s x) n) (and (alen@@ s n) (= (len@ x) n))) :pattern ((alen@@ (snoc@@ s x) n)))))
;!lemma
(assert (forall ((s Seq@@) (n Int)) (! (=> (= (len@@ s) 0) (alen@@ s n)) :pattern ((alen@@ s n)))))`
