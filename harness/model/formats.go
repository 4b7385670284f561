package model

import (
	"fmt"
	"sort"
	"strings"

	"verif/core"
)

// FormatVerdict judges str by a format name, from the grammars named in the
// property, written independently of the library. Unknown where the grammar
// leaves room.
func FormatVerdict(format, str string) Verdict {
	switch format {
	case "date-time", "datetime":
		return dateTimeVerdict(str)
	case "email":
		return emailVerdict(str)
	case "hostname":
		return b2v(hostname(str))
	case "ipv4":
		return b2v(ipv4(str))
	case "ipv6":
		return ipv6Verdict(str)
	case "uri":
		return uriVerdict(str)
	}
	return Accept
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

func atoi(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// dateTimeVerdict: RFC 3339. Accept exactly the upper-case T/Z forms with
// in-range fields; reject what lacks the shape; Unknown for the spellings
// on which parsers legitimately differ (leap second, lower case, comma).
func dateTimeVerdict(s string) Verdict {
	if len(s) < 20 {
		// "2006-01-02T15:04:05Z" is the shortest form; one-digit hours are a
		// well-known leniency of parsers
		if len(s) == 19 && strings.HasSuffix(s, "Z") {
			return Unknown
		}
		return Reject
	}
	// one-digit hours are a well-known leniency of parsers
	if s[12] == ':' {
		s = s[:11] + "0" + s[11:]
		if dateTimeVerdict(s) == Reject {
			return Reject
		}
		return Unknown
	}
	shape := "dddd-dd-ddTdd:dd:dd"
	for i := 0; i < len(shape); i++ {
		c := s[i]
		switch shape[i] {
		case 'd':
			if c < '0' || c > '9' {
				return Reject
			}
		case 'T':
			if c == 't' {
				return Unknown
			}
			if c != 'T' {
				return Reject
			}
		default:
			if c != shape[i] {
				return Reject
			}
		}
	}
	y, mo, d := atoi(s[0:4]), atoi(s[5:7]), atoi(s[8:10])
	h, mi, se := atoi(s[11:13]), atoi(s[14:16]), atoi(s[17:19])
	rest := s[19:]
	if rest[0] == ',' {
		return Unknown
	}
	if rest[0] == '.' {
		i := 1
		for i < len(rest) && rest[i] >= '0' && rest[i] <= '9' {
			i++
		}
		if i == 1 {
			return Reject
		}
		rest = rest[i:]
	}
	switch {
	case rest == "Z":
	case rest == "z":
		return Unknown
	case len(rest) == 6 && (rest[0] == '+' || rest[0] == '-') && rest[3] == ':' && digits(rest[1:3]) && digits(rest[4:6]):
		oh, om := atoi(rest[1:3]), atoi(rest[4:6])
		if oh > 24 || om > 60 {
			return Reject
		}
		if oh > 23 || om > 59 {
			return Unknown
		}
	default:
		return Reject
	}
	if mo < 1 || mo > 12 || d < 1 || d > daysIn(y, mo) || h > 24 || mi > 59 || se > 60 {
		return Reject
	}
	if h == 24 || se == 60 {
		return Unknown
	}
	return Accept
}

func atomText(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9':
		case strings.IndexByte("!#$%&'*+/=?^_`{|}~-", c) >= 0:
		default:
			return false
		}
	}
	return true
}

func dotAtom(s string) bool {
	for _, p := range strings.Split(s, ".") {
		if !atomText(p) {
			return false
		}
	}
	return true
}

// words: atoms separated by single spaces
func words(s string) bool {
	for _, w := range strings.Split(s, " ") {
		if !atomText(w) {
			return false
		}
	}
	return true
}

func plainEmail(s string) bool {
	at := strings.IndexByte(s, '@')
	return at >= 0 && dotAtom(s[:at]) && dotAtom(s[at+1:])
}

// emailVerdict: plain dot-atom addresses, also in angle brackets after a
// display name of atoms, are accepted; strings without an @ or with an empty
// side, lists, unbalanced brackets and loose words are rejected; other
// quoted, commented and display-name forms are left open.
func emailVerdict(s string) Verdict {
	if v, ok := emailKnown[s]; ok {
		return v
	}
	n := strings.Count(s, "@")
	if n > 1 && strings.Contains(s, ",") {
		list := true
		for _, p := range strings.Split(s, ",") {
			list = list && plainEmail(strings.Trim(p, " "))
		}
		if list {
			return Reject
		}
	}
	if lt := strings.IndexByte(s, '<'); n == 1 && lt >= 0 && !strings.ContainsAny(s, "\"()[],;:\\\t\r\n") {
		name, rest := s[:lt], s[lt+1:]
		gt := strings.IndexByte(rest, '>')
		if gt < 0 || strings.Contains(rest, "<") {
			return Reject
		}
		if !plainEmail(rest[:gt]) {
			if strings.Contains(rest[:gt], " ") {
				return Unknown
			}
			return Reject
		}
		if tail := rest[gt+1:]; tail != "" {
			if words(tail) || words(strings.Trim(tail, " ")) {
				return Reject
			}
			return Unknown
		}
		if name == "" || strings.HasSuffix(name, " ") && words(strings.TrimSuffix(name, " ")) {
			return Accept
		}
		return Unknown
	}
	if n == 1 && strings.Contains(s, " ") && !strings.ContainsAny(s, "\"<>()[],;:\\\t\r\n") {
		// two words on one side of the @
		at := strings.IndexByte(s, '@')
		l, d := s[:at], s[at+1:]
		if strings.Contains(l, " ") && words(l) || strings.Contains(d, " ") && words(d) {
			return Reject
		}
	}
	if n == 0 {
		return Reject
	}
	if strings.ContainsAny(s, "\"<>()[],;:\\ \t\r\n") {
		if strings.Trim(s, " \t\r\n") == "" {
			return Reject
		}
		return Unknown
	}
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return Unknown
		}
		if s[i] < 0x20 || s[i] == 0x7f {
			return Reject
		}
	}
	if n > 1 {
		return Reject
	}
	at := strings.IndexByte(s, '@')
	l, d := s[:at], s[at+1:]
	if l == "" || d == "" {
		return Reject
	}
	if dotAtom(l) && dotAtom(d) {
		return Accept
	}
	// leading, trailing or double dots
	return Reject
}

func hostname(s string) bool {
	if len(s) == 0 || len(s) > 255 {
		return false
	}
	letter := false
	body := strings.TrimSuffix(s, ".")
	if body == "" {
		return false
	}
	for _, label := range strings.Split(body, ".") {
		if len(label) < 1 || len(label) > 63 {
			return false
		}
		if label[0] == '-' || label[len(label)-1] == '-' {
			return false
		}
		for i := 0; i < len(label); i++ {
			c := label[i]
			switch {
			case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c == '_':
				letter = true
			case c >= '0' && c <= '9', c == '-':
			default:
				return false
			}
		}
	}
	return letter
}

func ipv4(s string) bool {
	parts := strings.Split(s, ".")
	if len(parts) != 4 {
		return false
	}
	for _, p := range parts {
		if len(p) < 1 || len(p) > 3 || !digits(p) || atoi(p) > 255 {
			return false
		}
		if len(p) > 1 && p[0] == '0' {
			return false
		}
	}
	return true
}

func ipv6Verdict(s string) Verdict {
	if strings.Contains(s, "%") {
		return Unknown // zones
	}
	return b2v(ipv6(s))
}

func hexgroup(g string) bool {
	if len(g) < 1 || len(g) > 4 {
		return false
	}
	for i := 0; i < len(g); i++ {
		c := g[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

func groups(s string, last bool) (int, bool) {
	if s == "" {
		return 0, true
	}
	n := 0
	ps := strings.Split(s, ":")
	for i, p := range ps {
		if last && i == len(ps)-1 && strings.Contains(p, ".") {
			if !ipv4(p) {
				return 0, false
			}
			n += 2
			continue
		}
		if !hexgroup(p) {
			return 0, false
		}
		n++
	}
	return n, true
}

func ipv6(s string) bool {
	if strings.Count(s, "::") > 1 || strings.Contains(s, ":::") {
		return false
	}
	if i := strings.Index(s, "::"); i >= 0 {
		a, ok1 := groups(s[:i], false)
		b, ok2 := groups(s[i+2:], true)
		return ok1 && ok2 && a+b < 8
	}
	n, ok := groups(s, true)
	return ok && n == 8
}

var emailKnown = map[string]Verdict{
	`"a b"@c.d`: Accept, `"a@b"@c.d`: Accept, `"Foo, Bar" <a@b.c>`: Accept, `"a b@c.d`: Reject, `a"b@c.d`: Reject,
	"a@b.c>": Reject, "<a@b.c": Reject, "<>": Reject, "Foo <>": Reject, "Foo": Reject, "foo.bar.com": Reject,
	"a@b.c, d@e.f": Reject, "a@b.c,d@e.f": Reject, "a@b.c; d@e.f": Reject, "a@b.c d@e.f": Reject, "a@b.c;": Reject, "a@b.c,": Reject,
}

var uriKnown = map[string]Verdict{
	"http://a b/": Reject, "http://h:x/": Reject, "http://[::1]/": Accept, "http://[::1]:80/x": Accept, "http://[::1": Reject, "http://u:p@h/": Accept,
	"http://a b.com": Reject, "http://h:80a": Reject, "tel:+1-816-555-1212": Accept, "data:text/plain,hello": Accept, "ldap://[2001:db8::7]/c=GB?objectClass?one": Accept,
	"../up/x": Accept, "./x": Accept, "a/b:c": Accept, "//example.com/x": Accept, "http:": Accept, "HTTP://EXAMPLE.COM/": Accept, "http://example.com?x": Accept, "a;b=c": Accept,
}

func init() {
	for s := range emailKnown {
		formatSeeds["email"] = append(formatSeeds["email"], s)
	}
	for s := range uriKnown {
		formatSeeds["uri"] = append(formatSeeds["uri"], s)
	}
	sort.Strings(formatSeeds["email"])
	sort.Strings(formatSeeds["uri"])
}

// uriVerdict: only clear cases.
func uriVerdict(s string) Verdict {
	if v, ok := uriKnown[s]; ok {
		return v
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 0x20 || c == 0x7f {
			if h := strings.IndexByte(s, '#'); h >= 0 && h < i {
				return Unknown
			}
			return Reject
		}
		if c == '%' {
			if i+2 >= len(s) || !hexgroup(s[i+1:i+2]) || !hexgroup(s[i+2:i+3]) {
				// escapes are not checked in queries by every parser
				if q := strings.IndexAny(s, "?#"); q >= 0 && q < i {
					return Unknown
				}
				// nor in the opaque part of urn:..., mailto:...
				if col := strings.IndexByte(s, ':'); col >= 0 && col < i && !strings.HasPrefix(s[col+1:], "/") {
					return Unknown
				}
				return Reject
			}
			if strings.Contains(s, "//") {
				return Unknown // escapes in hosts
			}
		}
	}
	if s != "" && s[0] == ':' {
		return Reject
	}
	plain := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("/.-_~%?=&#+,;!$'()*@:", c) >= 0) {
			plain = false
		}
	}
	if !plain {
		return Unknown
	}
	for _, sch := range []string{"http://", "https://", "ftp://", "urn:", "mailto:", "file:///"} {
		if strings.HasPrefix(s, sch) {
			rest := s[len(sch):]
			if strings.HasSuffix(sch, "//") {
				end := strings.IndexAny(rest, "/?#")
				host := rest
				if end >= 0 {
					host = rest[:end]
				}
				if hostport(host) {
					return Accept
				}
				return Unknown
			}
			return Accept
		}
	}
	if strings.HasPrefix(s, "//") {
		return Unknown
	}
	// relative references: fine unless the first segment holds a colon
	seg := s
	if i := strings.IndexAny(s, "/?#"); i >= 0 {
		seg = s[:i]
	}
	if strings.Contains(seg, ":") {
		return Unknown
	}
	return Accept
}

func hostport(h string) bool {
	if i := strings.LastIndexByte(h, ':'); i >= 0 {
		if !digits(h[i+1:]) || len(h)-i > 5 {
			return false
		}
		h = h[:i]
	}
	return hostname(h)
}

// Formats are the known format names.
var Formats = []string{"date-time", "datetime", "email", "hostname", "ipv4", "ipv6", "uri"}

// UnknownFormats must never reject.
var UnknownFormats = []string{"", "date", "time", "IPV4", "ip-address", "host-name", "uri-reference", "regex", "color", "phone", "utc-millisec", "x", "Email", "date_time", "ipv4 ", "ipv", "uuid"}

// Near-miss and well-formed values by hand, in addition to generated ones.
var formatSeeds = map[string][]string{
	"date-time": {"2016-02-29T23:59:59Z", "2015-02-29T00:00:00Z", "1985-04-12T23:20:50.52Z", "1996-12-19T16:39:57-08:00", "1937-01-01T12:00:27.87+00:20", "2000-01-01", "2000-01-01T00:00:00", "20000101T000000Z", "2000-13-01T00:00:00Z", "2000-00-01T00:00:00Z", "2000-01-32T00:00:00Z", "2000-01-01T25:00:00Z", "2000-01-01T00:60:00Z", "not a date", "", "2000-01-01T00:00:00+0900", "2000-01-01T00:00:00.Z", "0000-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "2000-01-01T00:00:00Z ", " 2000-01-01T00:00:00Z", "Mon, 02 Jan 2006 15:04:05 MST", "2006-01-02 15:04:05", "2006-01-02 15:04:05Z", "2006-01-02_15:04:05Z", "2006-01-02T15:04Z", "2006-01-02T15:04:05z0", "2006-1-2T15:04:05Z", "06-01-02T15:04:05Z", "2006-01-02T15:04:05+07", "2006/01/02T15:04:05Z", "2006-01-02T15:04:05.123456789123Z", "1136239445", "1900-02-29T00:00:00Z", "2000-02-29T00:00:00Z", "2000-04-31T00:00:00Z"},
	"email":     {"foo@bar.com", "a@b", "first.last+tag@sub.example.org", "foo", "@bar.com", "foo@", "foo@@bar", "", "a..b@c.d", ".a@b.c", "a.@b.c", "a@b..c", "a@.b", "a@b.", "o'hara@example.com", "x@1.2.3.4", "foo@bar@baz"},
	"hostname":  {"example.com", "a", "a-b.c-d", "_dmarc.example.com", "example.com.", "-a.com", "a-.com", "a.-b", "a..b", ".a", "", ".", "..", "123", "1.2.3.4", "123.a", "a b", "exa$mple", "日本.jp", "a.b-", "xn--wgv71a.jp", strings.Repeat("a", 63) + ".com", strings.Repeat("a", 64) + ".com", "com." + strings.Repeat("a", 63), "com." + strings.Repeat("a", 64), strings.Repeat("a.", 127) + "a", strings.Repeat("a.", 127) + "ab", strings.Repeat("a.", 128) + "ab", strings.Repeat("9", 63), "a" + strings.Repeat("9", 62) + ".x", strings.Repeat("a", 64)},
	"ipv4":      {"0.0.0.0", "255.255.255.255", "256.0.0.1", "1.2.3", "1.2.3.4.5", "1.2.3.", ".1.2.3", "1..2.3", "", "::1", "::ffff:1.2.3.4", "1.2.3.4 ", "01.2.3.4", "1.2.3.04", "a.b.c.d", "1.2.3.x", "127.0.0.1", "192.168.1.999", "1.2.3.4/8", "-1.2.3.4", "１.2.3.4", "1.2.3.0x4"},
	"ipv6":      {"::", "::1", "1::", "fe80::1", "2001:db8::ff00:42:8329", "2001:0db8:0000:0000:0000:ff00:0042:8329", "ABCD:EF01:2345:6789:ABCD:EF01:2345:6789", "::ffff:1.2.3.4", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1::8", "1:::8", "1::2::3", "12345::", "g::", "1.2.3.4", "", ":", ":1", "1:", "1:2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", "::1.2.3", "1:2:3:4:5:6:7:8:", ":1:2:3:4:5:6:7:8", "::ffff:256.1.1.1", "not an ip", "0:0:0:0:0:0:0:0", "fedc:ba98:7654:3210:fedc:ba98:7654:3210"},
	"uri":       {"http://example.com/", "https://example.com:8080/a/b?c=d&e=f#g", "urn:isbn:0451450523", "mailto:a@b.com", "/relative/path", "relative", "", "?q=1", "#frag", "ftp://ftp.example.org/x", ":foo", "http://example.com/%zz", "%", "a%2", "foo%20bar", "http://example.com/\x7f", "a\nb", "://x", "file:///etc/passwd", "%gg", "/a/%e3%81%82"},
}

func init() { formatSeeds["datetime"] = formatSeeds["date-time"] }

func hexOf(r *core.Rng, n int) string {
	const set = "0123456789abcdefABCDEF"
	b := make([]byte, n)
	for i := range b {
		b[i] = set[r.Intn(len(set))]
	}
	return string(b)
}

func label(r *core.Rng, n int) string {
	const set = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
	b := make([]byte, n)
	for i := range b {
		k := len(set)
		if i == 0 || i == n-1 {
			k = 62
		}
		b[i] = set[r.Intn(k)]
	}
	return string(b)
}

// GenFormat makes a string that is mostly well-formed, sometimes broken.
func GenFormat(r *core.Rng, format string) string {
	seeds := formatSeeds[format]
	if len(seeds) > 0 && r.P(1, 4) {
		return core.Pick(r, seeds)
	}
	var s string
	switch format {
	case "date-time", "datetime":
		y := core.Pick(r, []int{0, 1, 1582, 1900, 1970, 1999, 2000, 2001, 2004, 2016, 2024, 2038, 2100, 9999, r.Intn(10000)})
		mo := r.Range(1, 12)
		d := core.Pick(r, []int{1, 28, daysIn(y, mo), r.Range(1, 28), 29, 30, 31, 0, 32})
		if r.P(1, 25) {
			mo = core.Pick(r, []int{0, 13, 99})
		}
		s = fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, d, core.Pick(r, []int{0, 12, 23, r.Intn(24), 24, 25}), core.Pick(r, []int{0, 59, r.Intn(60), 60}), core.Pick(r, []int{0, 59, r.Intn(60), 61}))
		if r.P(1, 3) {
			s += "." + fmt.Sprint(r.Intn(1000000000))
		}
		s += core.Pick(r, []string{"Z", "+00:00", "-08:00", "+09:00", "+05:45", "-23:59", "+14:00", "Z", "", "+9:00", "UTC", "+25:00", "+0900", "+00:61"})
	case "email":
		n := r.Range(1, 3)
		parts := make([]string, n)
		for i := range parts {
			parts[i] = label(r, r.Range(1, 8))
		}
		s = strings.Join(parts, core.Pick(r, []string{".", "+", "-", "_"})) + "@" + label(r, r.Range(1, 20)) + "." + label(r, r.Range(1, 5))
		switch r.Intn(16) {
		case 0:
			s += core.Pick(r, []string{", ", ",", "; ", " "}) + GenFormat(r, "email")
		case 1:
			s = label(r, 4) + " <" + s + ">"
		case 2:
			s = core.Pick(r, []string{"<", "", "Foo Bar <"}) + s + core.Pick(r, []string{">", "> x", ""})
		}
	case "hostname":
		n := core.Pick(r, []int{1, 2, 3, 4, r.Range(1, 10), r.Range(20, 60)})
		parts := make([]string, n)
		for i := range parts {
			parts[i] = label(r, core.Pick(r, []int{1, 2, 3, r.Range(1, 12), 62, 63, 63, 64}))
			if n > 10 {
				parts[i] = label(r, r.Range(1, 7))
			}
		}
		s = strings.Join(parts, ".")
		if r.P(1, 8) {
			s += "."
		}
	case "ipv4":
		parts := make([]string, core.Pick(r, []int{4, 4, 4, 4, 4, 4, 3, 5}))
		for i := range parts {
			parts[i] = fmt.Sprint(core.Pick(r, []int{0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 250, 254, 255, 255, r.Intn(256), r.Intn(256), r.Intn(256), r.Intn(256), 256, 260, 300, 999}))
		}
		s = strings.Join(parts, ".")
	case "ipv6":
		n := core.Pick(r, []int{8, 8, 8, r.Range(1, 7), 7, 9})
		parts := make([]string, n)
		for i := range parts {
			parts[i] = hexOf(r, core.Pick(r, []int{1, 2, 3, 4, 4, 4}))
		}
		if r.P(1, 30) {
			parts[r.Intn(n)] = hexOf(r, 5)
		}
		s = strings.Join(parts, ":")
		if n < 8 && !r.P(1, 6) || r.P(1, 10) {
			k := r.Range(0, n)
			s = strings.Join(parts[:k], ":") + "::" + strings.Join(parts[k:], ":")
		}
		if r.P(1, 8) {
			s += ":" + GenFormat(r, "ipv4")
		}
	case "uri":
		s = core.Pick(r, []string{"http://", "https://", "ftp://", "urn:", "mailto:", "", "/"})
		if strings.HasSuffix(s, "//") {
			s += label(r, r.Range(1, 10)) + "." + core.Pick(r, []string{"com", "org", "jp"})
			if r.P(1, 4) {
				s += ":" + fmt.Sprint(r.Range(1, 9999))
			}
			s += "/"
		}
		for i := r.Intn(4); i > 0; i-- {
			s += label(r, r.Range(1, 8)) + "/"
		}
		if r.P(1, 5) {
			s += core.Pick(r, []string{"%20", "%e3%81%82", "%zz", "%", "%4"})
		}
		if r.P(1, 4) {
			s += "?" + label(r, 3) + "=" + label(r, 4)
		}
		if r.P(1, 4) {
			s += "#" + label(r, 5)
		}
	default:
		return GenString(r)
	}
	if r.P(1, 6) && s != "" { // a small typo
		i := r.Intn(len(s))
		switch r.Intn(4) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + s[i:i+1] + s[i:]
		case 2:
			s = s[:i] + core.Pick(r, []string{" ", ".", "-", ":", "@", "x", "0", "/", "%", "\n"}) + s[i:]
		default:
			j := r.Intn(len(s))
			b := []byte(s)
			b[i], b[j] = b[j], b[i]
			s = string(b)
		}
	}
	return s
}
