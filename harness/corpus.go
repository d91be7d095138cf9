package main

// Small programs as people write them.  $ stands for the prefix of the unit,
// #lo:hi# for a random number.  Random changes of their text are tried with
// them (gen_text.go); the interpreter tells the outcome.

import (
	"strconv"
	"strings"
)

type corpusProg struct {
	props string // of which properties they are cases
	src   string
}

var corpus = []corpusProg{
	{"P01 P03 P05", `
$gcd(a, b) {
	while (b) { auto t; t = a % b; a = b; b = t; }
	return(a);
}
$lcm(a, b) return(a / $gcd(a, b) * b);
$e() { r_($gcd(#1:400#, #1:90#)); r_($lcm(#1:40#, #1:60#)); r_($gcd($lcm(4, #1:9#), #1:50#)); }`},
	{"P05 P03", `
$ack(m, n) {
	if (m == 0) return(n + 1);
	if (n == 0) return($ack(m - 1, 1));
	return($ack(m - 1, $ack(m, n - 1)));
}
$e() { r_($ack(#0:2#, #0:5#)); r_($ack(1, #0:9#)); }`},
	{"P05 P01", `
$fib(n) return(n < 2 ? n : $fib(n - 1) + $fib(n - 2));
$fact(n) { if (n <= 1) return(1); return(n * $fact(n - 1)); }
$e() { r_($fib(#0:13#)); r_($fact(#0:20#)); r_($fib($fib(#3:6#))); }`},
	{"P05 P06", `
$moves 0;
$hanoi(n, a, b, c) {
	extrn $moves;
	if (!n) return;
	$hanoi(n - 1, a, c, b);
	$moves++;
	r_(n * 100 + a * 10 + b);
	$hanoi(n - 1, c, b, a);
}
$e() { extrn $moves; $hanoi(#1:5#, 1, 2, 3); r_($moves); }`},
	{"P03 P17 P06", `
$sort(v, n) {
	auto i, j, t;
	i = 0;
	while (i < n - 1) {
		j = 0;
		while (j < n - 1 - i) {
			if (v[j] > v[j + 1]) { t = v[j]; v[j] = v[j + 1]; v[j + 1] = t; }
			j++;
		}
		i++;
	}
}
$e() {
	auto v[12], i, x;
	x = #1:1000#;
	i = 0;
	while (i < 12) { x = (x * 1103515245 + 12345) % 2147483648; v[i++] = x % 1000 - #0:500#; }
	$sort(v, #2:12#);
	i = 0;
	while (i < 12) r_(v[i++]);
}`},
	{"P17 P05 P06", `
$swap(a, b) { auto t; t = *a; *a = *b; *b = t; }
$quick(v, lo, hi) {
	auto i, j, p;
	if (lo >= hi) return;
	p = v[(lo + hi) / 2]; i = lo; j = hi;
	while (i <= j) {
		while (v[i] < p) ++i;
		while (v[j] > p) --j;
		if (i <= j) $swap(&v[i++], &v[j--]);
	}
	$quick(v, lo, j);
	$quick(v, i, hi);
}
$v[15] 9, -3, 7, 'a', 0, 5, -100, 22, 6, 6, 1;
$e() {
	extrn $v;
	auto i;
	$v[#11:14#] = #0:99#;
	$quick($v, 0, #3:14#);
	i = 0;
	while (i < 15) { r_($v[i]); i =+ 1; }
}`},
	{"P03 P17 P06", `
$e() {
	auto s[#20:60#], n, i, j;
	n = #10:20#;
	i = 0;
	while (i < n) s[i++] = 1;
	s[0] = s[1] = 0;
	i = 2;
	while (i * i < n) {
		if (s[i]) { j = i * i; while (j < n) { s[j] = 0; j =+ i; } }
		++i;
	}
	i = 0;
	while (i < n) { if (s[i]) r_(i); i++; }
}`},
	{"P03 P01 P05", `
$printn(n, b) {
	auto a;
	if (a = n / b) $printn(a, b);
	r_(n % b + '0');
}
$e() { $printn(#0:99999#, #2:10#); $printn(#0:9999#, 8); }`},
	{"P04 P03 P05", `
$days(m, y) {
	switch (m) {
	case 2: return(28 + (y % 4 == 0 & y % 100 != 0 | y % 400 == 0));
	case 4: case 6: case 9: case 11: return(30);
	}
	return(31);
}
$e() {
	auto m, s;
	m = 1; s = 0;
	while (m <= 12) { r_($days(m, #1890:2010#)); s =+ $days(m++, 2000); }
	r_(s);
}`},
	{"P04 P17 P03", `
$prog[] 1, 5, 1, #1:9#, 2, 4, 1, 3, 3, 5, 6, 0;
$run(p) {
	auto st[16], sp, op;
	sp = 0;
next:
	op = *p; p =+ 8;
	switch (op) {
	case 0: return(st[0]);
	case 1: st[sp++] = *p; p =+ 8; goto next;
	case 2: sp--; st[sp - 1] =+ st[sp]; goto next;
	case 3: --sp; st[sp - 1] =* st[sp]; goto next;
	case 4: st[sp] = st[sp - 1]; sp++; goto next;
	case 5: st[sp - 1] = -st[sp - 1];
	case 6: r_(st[sp - 1]); goto next;
	}
	r_(-op);
	return(-1);
}
$e() { extrn $prog; r_($run($prog)); $prog[3] = #1:9#; r_($run($prog)); }`},
	{"P03 P04", `
$e() {
	auto i, state, n;
	i = 0; state = #0:3#; n = 0;
	while (i < #5:25#) {
		switch (state) {
		case 0: if (i % 2) state = 1; else state = 2; goto out;
		case 1: n =+ 10; state = 3;
		case 3: state = 0; goto out;
		case 2: n--; state = i & 3;
		}
		n =+ 100;
	out:
		r_(state * 1000 + n);
		i++;
	}
}`},
	{"P08 P17 P03", `
$len(s) { auto n; n = 0; while (char(s, n) != '*e') n++; return(n); }
$cmp(a, b) {
	auto i, c;
	i = 0;
	while ((c = char(a, i)) == char(b, i)) { if (c == '*e') return(0); ++i; }
	return(c < char(b, i) ? -1 : 1);
}
$e() {
	auto t;
	t = "hello, world";
	r_($len(t)); r_($len("")); r_($len("a**b*"c*'d"));
	r_($cmp(t, "hello")); r_($cmp("abc", "abd")); r_($cmp("x", "x")); r_($cmp("*n", "*t"));
}`},
	{"P08 P17 P03", `
$rev(s, d) {
	auto n, i;
	n = 0;
	while (char(s, n)) n++;
	i = 0;
	while (i < n) { lchar(d, i, char(s, n - 1 - i)); i++; }
	lchar(d, i, 0);
	return(d);
}
$upper(d) {
	auto i, c;
	i = -1;
	while (c = char(d, ++i)) if (c >= 'a' & c <= 'z') lchar(d, i, c - 'a' + 'A');
}
$e() {
	auto b[8], i;
	$rev("Stressed #0:99# Desserts", b);
	$upper(b);
	i = 0;
	while (char(b, i)) r_(char(b, i++));
	printf("%s*n", b);
}`},
	{"P07 P02 P05", `
$seed #1:99999#;
$rand(n) { extrn $seed; $seed = ($seed * 16807) % 2147483647; return($seed % n); }
$hist[10];
$e() {
	extrn $hist;
	auto i;
	i = 0;
	while (i++ < #5:60#) $hist[$rand(10)]++;
	i = 10;
	while (i) { r_($hist[--i]); }
}`},
	{"P07 P17 P05", `
$pool[60]; $free 0; $root 0;
$new(k) { extrn $pool, $free; auto p; p = &$pool[$free]; $free =+ 3; p[0] = k; p[1] = p[2] = 0; return(p); }
$ins(t, k) {
	if (!*t) { *t = $new(k); return; }
	if (k < (*t)[0]) $ins(*t + 8, k);
	else if (k > (*t)[0]) $ins(&(*t)[2], k);
}
$walk(p, d) {
	if (p == 0) return(d);
	auto a, b;
	a = $walk(p[1], d + 1);
	r_(p[0]);
	b = $walk(p[2], d + 1);
	return(a > b ? a : b);
}
$e() {
	extrn $root;
	auto i;
	i = 0;
	while (i < 12) { $ins(&$root, i * #3:17# % 23); i++; }
	r_($walk($root, 0));
}`},
	{"P05 P07 P17", `
$add(a, b) return(a + b);
$mul(a, b) return(a * b);
$sub(a, b) return(a - b);
$tab[3];
$fold(f, v, n) { auto r; r = v[0]; while (--n > 0) r = f(r, *(v =+ 8)); return(r); }
$e() {
	extrn $tab;
	auto v[5], i;
	$tab[0] = $add; $tab[1] = $mul; $tab[2] = $sub;
	i = 0;
	while (i < 5) { v[i] = i * i + #1:9#; i++; }
	i = 0;
	while (i < 3) r_($fold($tab[i++], v, #1:5#));
	r_(($tab[#0:2#])(6, 7));
}`},
	{"P02 P01", `
$e() {
	auto i, j, k;
	i = #1:9#; j = #1:9#; k = 3;
	i =+ j =* 2;
	k =<< i =- j;
	r_(i); r_(j); r_(k =>> 1);
	i = j++ + --k; r_(i); r_(j); r_(k);
	j =| k =& 0177; r_(j); r_(k);
	i =% 7; r_(i); i =/ 2; r_(i);
	k =< 5; r_(k); k =>= 1; r_(k); i =!= j; r_(i); j === 5; r_(j);
}`},
	{"P01 P08", `
$bits(n) { auto c; c = 0; while (n) { c =+ n & 1; n = (n >> 1) & 0777777777777777777777; } return(c); }
$hash(s) { auto h, i, c; h = #1:5381#; i = 0; while (c = char(s, i++)) h = h * 33 + c & 077777777; return(h); }
$e() {
	r_($bits(#0:9999#)); r_($bits(-1)); r_($bits('abcdefgh'));
	r_($hash("the quick brown fox")); r_($hash("")); r_(1 << #0:62# | 5 & -2);
}`},
	{"P03 P06 P17", `
$ok(q, r) {
	auto i;
	i = 0;
	while (i < r) {
		if (q[i] == q[r]) return(0);
		if (q[i] - q[r] == r - i | q[r] - q[i] == r - i) return(0);
		i++;
	}
	return(1);
}
$e() {
	auto q[6], r, n, count;
	n = #3:5#; count = 0; r = 0; q[0] = -1;
	while (r >= 0) {
		while (++q[r] < n) if ($ok(q, r)) goto found;
		--r;
		goto more;
	found:
		if (r == n - 1) { count++; r_(q[0] * 10 + q[r]); goto more; }
		q[++r] = -1;
	more: ;
	}
	r_(count);
}`},
	{"P06 P17 P03", `
$e() {
	auto a[9], b[9], c[9], i, j, k;
	i = 0;
	while (i < 9) { a[i] = i + #0:5#; b[i] = 9 - i; c[i] = 0; ++i; }
	i = 0;
	while (i < 3) {
		j = 0;
		while (j < 3) {
			k = 0;
			while (k < 3) { c[3 * i + j] =+ a[3 * i + k] * b[3 * k + j]; k++; }
			j++;
		}
		i++;
	}
	while (i < 12) r_(c[i++ - 3]);
}`},
	{"P07 P02 P03", `
$q[8]; $head 0; $tail 0;
$put(x) { extrn $q, $head, $tail; if (($tail + 1) % 8 == $head) return(0); $q[$tail] = x; $tail = ($tail + 1) % 8; return(1); }
$get() { extrn $q, $head, $tail; auto x; if ($head == $tail) return(-1); x = $q[$head++]; $head =% 8; return(x); }
$e() {
	auto i, n;
	i = 0; n = #1:9#;
	while (i < 20) {
		if (i * n % 3) r_($put(i)); else r_($get());
		i++;
	}
	while ((n = $get()) >= 0) r_(n);
}`},
	{"P05 P03 P08", `
$pos 0; $text "12+3**(4-#1:9#)*e";
$peek() { extrn $pos, $text; return(char($text, $pos)); }
$next() { extrn $pos; auto c; c = $peek(); $pos++; return(c); }
$num() { auto n, c; n = 0; while ((c = $peek()) >= '0' & c <= '9') n = n * 10 + $next() - '0'; return(n); }
$prim() { auto v; if ($peek() == '(') { $next(); v = $sum(); $next(); return(v); } return($num()); }
$prod() { auto v; v = $prim(); while ($peek() == '**') { $next(); v =* $prim(); } return(v); }
$sum() {
	auto v, c;
	v = $prod();
	while ((c = $peek()) == '+' | c == '-') { $next(); if (c == '+') v =+ $prod(); else v =- $prod(); }
	return(v);
}
$e() { extrn $text, $pos; r_($sum()); $text = "2**(3+4)**5-#1:99#"; $pos = 0; r_($sum()); r_($pos); }`},
	{"P08 P07", `
$msg[] "zero", "one", "two", "three", 'four', -5;
$e() {
	extrn $msg;
	auto i;
	i = 0;
	while (i < 4) { r_(char($msg[i], i)); printf("%s %d*n", $msg[i], i); i++; }
	r_($msg[4]); r_($msg[5] + #0:9#);
}`},
	{"P02 P17", `
$e() {
	auto v[6], w[6], i, j;
	i = 0; j = 5;
	while (i < 6) { v[i] = w[j--] = i * #1:7#; i++; }
	i = j = 0;
	while (i < 5) v[i++] =+ w[++j];
	while (i >= 0) { r_(v[i]); r_(*(&w[5 - i])); i--; }
	v[v[0] - v[0] + 1] =- v[1] = 7; r_(v[1]);
	r_(&v[4] - &v[1]); r_(v + 8 == &v[1]);
}`},
	{"P04 P05", `
$kind(c) {
	switch (c) {
	case ' ': case '*t': case '*n': return(0);
	case '0': case '1': case '2': return(1);
	case '+': case '-': case '**': case '/': return(2);
	case '(': { return(3); }
	case ')': return(4);
	case '*e': return(-1);
	}
	return(9);
}
$e() { auto i, s; s = "1 + (#10:99#)/x*t"; i = 0; while ($kind(char(s, i)) >= 0) r_($kind(char(s, i++))); r_(i); }`},
	{"P03 P06", `
$e() {
	auto x, n;
	x = #1:40#; n = 0;
	while (x != 1) {
		if (x % 2) x = 3 * x + 1; else x =/ 2;
		n++;
		if (n > 50) goto done;
	}
done:
	r_(x); r_(n);
	while (1) { if (--n < 0) return; if (n % 7 == 0) { r_(n); } }
}`},
	{"P06 P05 P17", `
$perm(v, k, n) {
	auto i, t;
	if (k == n) { i = 0; t = 0; while (i < n) t = t * 10 + v[i++]; r_(t); return; }
	i = k;
	while (i < n) {
		t = v[k]; v[k] = v[i]; v[i] = t;
		$perm(v, k + 1, n);
		t = v[k]; v[k] = v[i]; v[i] = t;
		i++;
	}
}
$e() { auto v[4]; v[0] = #1:9#; v[1] = 2; v[2] = 3; v[3] = 4; $perm(v, 0, #1:4#); }`},
	{"P01 P02 P03", `
$pow(b, n, m) { auto r; r = 1; while (n > 0) { if (n & 1) r = r * b % m; b = b * b % m; n =>> 1; } return(r); }
$sqrt(n) { auto lo, hi, m; lo = 0; hi = n + 1; while (hi - lo > 1) { m = (lo + hi) / 2; if (m * m <= n) lo = m; else hi = m; } return(lo); }
$abs(x) return(x < 0 ? -x : x);
$max(a, b) return(a > b ? a : b);
$e() { r_($pow(#2:99#, #0:200#, 1009)); r_($sqrt(#0:99999#)); r_($abs(-#0:9#)); r_($max($abs(3), $max(-4, #0:9#))); }`},
	{"P07 P05", `
$depth; $maxd 0;
$even(n) { extrn $depth, $maxd; $depth++; if ($depth > $maxd) $maxd = $depth; n = n ? $odd(n - 1) : 1; $depth--; return(n); }
$odd(n) { extrn $depth; auto r; $depth =+ 1; r = !n ? 0 : $even(n - 1); $depth =- 1; return(r); }
$e() { extrn $depth, $maxd; r_($even(#0:30#)); r_($odd(7)); r_($depth); r_($maxd); }`},
	{"P17 P06", `
$head;
$push(cell, v) { extrn $head; cell[0] = v; cell[1] = $head; $head = cell; }
$e() {
	extrn $head;
	auto c[20], i, p, q;
	i = 0;
	while (i < #2:10#) { $push(&c[2 * i], i * i); i++; }
	/* reverse */
	q = 0;
	while (p = $head) { $head = p[1]; p[1] = q; q = p; }
	$head = q;
	while (q) { r_(*q); q = q[1]; }
}`},
	{"P03 P04 P01", `
$e() {
	auto i;
	i = 0;
	while (i++ < #5:40#) {
		if (0 == i % 15) printf("FizzBuzz");
		else if (0 == i % 3) printf("Fizz");
		else if (0 == i % 5) printf("Buzz");
		else printf("%d", i);
		printf("*n");
	}
}`},
	{"P08 P01", `
$e() {
	r_('a'); r_('ab' - 'a'); r_('**'); r_(''); r_('*0') ; r_(010 + 8); r_(-010); r_('*(' == '{'); r_(08 + 09); r_(#0:777#);
	r_('a' < 'b' ? 'yes' : 'no'); r_(0 - 1); r_(- -1); r_(!'a'); r_(!0);
}`},
	{"P06 P03", `
$f(n) {
	auto a, v[3];
	a = n;
	v[0] = n; v[1] = a + n; v[2] = v[1] - v[0];
	if (n > 0) { auto b, w[2]; b = $f(n - 1); w[0] = b; w[1] = a; return(w[0] * 3 + w[1] + v[2]); }
	while (n < 0) { auto c; c = n++; r_(c + v[0]); }
	return(v[1]);
}
$e() { r_($f(#0:6#)); r_($f(-#1:5#)); }`},
	{"P02 P17 P07", `
$m[9] 1, 2, 3, 4, 5, 6, 7, 8, 9;
$row(i) { extrn $m; return(&$m[3 * i]); }
$e() {
	extrn $m;
	auto i, j, t;
	i = 0;
	while (i < 3) {
		j = i + 1;
		while (j < 3) { t = $row(i)[j]; $row(i)[j] = $row(j)[i]; $row(j)[i] = t; j++; }
		i++;
	}
	$row(#0:2#)[1] =* 10;
	($row(1))[2]++;
	--$row(2)[0];
	i = 0;
	while (i < 9) r_($m[i++]);
}`},
	{"P10 P08", `
$e() {
	auto i;
	i = 0;
	while (i < #1:5#) { printf("%d: %o %c %s*n", i, i * 8, 'a' + i, i % 2 ? "odd" : "even"); i++; }
	printf("100%% %d*n", -#0:999#);
}`},
}

// corpusUnit makes a unit of one of the programs of a property (of all for "").
func corpusUnit(prop string) func(s *Src, pfx string) *Unit {
	var l []corpusProg
	for _, c := range corpus {
		if strings.Contains(c.props, prop) {
			l = append(l, c)
		}
	}
	return func(s *Src, pfx string) *Unit {
		c := pick(s, l)
		src := corpusText(s, c.src, pfx)
		ds, reject, unsure := refParse(src)
		if reject != "" || unsure != "" {
			trap("corpus: %s%s", reject, unsure)
		}
		u := &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: []string{"idiom"}}
		if s.Bool() {
			u.Src = []string{src + "\n"}
		}
		return u
	}
}

func corpusText(s *Src, t, pfx string) string {
	t = strings.ReplaceAll(t, "$", pfx)
	for {
		i := strings.IndexByte(t, '#')
		if i < 0 {
			return t
		}
		j := i + 1 + strings.IndexByte(t[i+1:], '#')
		a, b, _ := strings.Cut(t[i+1:j], ":")
		lo, _ := strconv.Atoi(a)
		hi, _ := strconv.Atoi(b)
		t = t[:i] + strconv.Itoa(s.Range(lo, hi)) + t[j+1:]
	}
}
