package refs

// Kind of an ANSI sequence.
type Kind int

// Kinds of lexemes.
const (
	Plain Kind = iota
	Start
	Stop
)

// Lexeme is a start or stop sequence, or a run of other runes (plain text and other sequences).
type Lexeme struct {
	Kind Kind
	Text []rune
}

func isDigit(r rune) bool { return r >= '0' && r <= '9' }

// sequence recognizes a start or stop sequence at the beginning of the runes: it returns its length, or 0.
//
//	ESC [ arg { (;|:) arg } (m|s|h|u|l)   with arg made of 0 to 3 digits
func sequence(rs []rune) (int, Kind) {
	if len(rs) < 2 || rs[0] != 0x1b || rs[1] != '[' {
		return 0, Plain
	}

	i, zero := 2, true
	for {
		for digits := 0; i < len(rs) && isDigit(rs[i]); i++ {
			if digits++; digits > 3 {
				return 0, Plain
			}
			zero = zero && rs[i] == '0'
		}
		if i < len(rs) && (rs[i] == ';' || rs[i] == ':') {
			i++

			continue
		}

		break
	}

	if i >= len(rs) {
		return 0, Plain
	}

	switch rs[i] {
	case 's', 'h':
		return i + 1, Start
	case 'u', 'l':
		return i + 1, Stop
	case 'm':
		if zero {
			return i + 1, Stop
		}

		return i + 1, Start
	default:
		return 0, Plain
	}
}

// Lex cuts runes into start sequences, stop sequences and the rest.
func Lex(rs []rune) []Lexeme {
	var out []Lexeme
	for i := 0; i < len(rs); {
		n, kind := sequence(rs[i:])
		if n > 0 {
			out = append(out, Lexeme{kind, rs[i : i+n : i+n]})
			i += n

			continue
		}

		if len(out) == 0 || out[len(out)-1].Kind != Plain {
			out = append(out, Lexeme{Kind: Plain})
		}
		last := &out[len(out)-1]
		last.Text = append(last.Text, rs[i])
		i++
	}

	return out
}
