package cli

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Screen is what a terminal shows: the part of a VT100 that a program like this can use. It starts with the cursor in a
// given row of an empty screen.
type Screen struct {
	Rows, Cols int
	cell       [][]rune
	R, C       int
	wrap       bool // the cursor is past the last column
	saved      [2]int
	Scrolled   []string // rows that have left at the top
	rest       []byte
	Odd        []string // sequences this screen does not know
}

// NewScreen makes an empty screen.
func NewScreen(rows, cols, row int) *Screen {
	s := &Screen{Rows: rows, Cols: cols, R: row}
	for i := 0; i < rows; i++ {
		s.cell = append(s.cell, s.blank())
	}
	return s
}

func (s *Screen) blank() []rune {
	l := make([]rune, s.Cols)
	for i := range l {
		l[i] = ' '
	}
	return l
}

// Row gives the text of a row, without blanks at its end.
func (s *Screen) Row(i int) string {
	if i < 0 || i >= s.Rows {
		return ""
	}
	return strings.TrimRight(string(s.cell[i]), " ")
}

// Before and After give the cursor's row on both sides of the cursor.
func (s *Screen) Before() string {
	if s.wrap {
		return string(s.cell[s.R])
	}
	return string(s.cell[s.R][:s.C])
}

// After gives the text from the cursor on.
func (s *Screen) After() string {
	if s.wrap {
		return ""
	}
	return strings.TrimRight(string(s.cell[s.R][s.C:]), " ")
}

// Text gives everything that is on the screen or has scrolled off it.
func (s *Screen) Text() string {
	l := append([]string{}, s.Scrolled...)
	for i := range s.cell {
		l = append(l, s.Row(i))
	}
	return strings.Join(l, "\n")
}

// Below gives the text below the cursor's row.
func (s *Screen) Below() string {
	var l []string
	for i := s.R + 1; i < s.Rows; i++ {
		l = append(l, s.Row(i))
	}
	return strings.TrimSpace(strings.Join(l, "\n"))
}

func (s *Screen) String() string {
	var b strings.Builder
	for i := range s.cell {
		if t := s.Row(i); t != "" {
			fmt.Fprintf(&b, "%d: %s\n", i, t)
		}
	}
	return fmt.Sprintf("%scursor at %d,%d", b.String(), s.R, s.C)
}

func (s *Screen) down() {
	if s.R < s.Rows-1 {
		s.R++
		return
	}
	s.Scrolled = append(s.Scrolled, s.Row(0))
	copy(s.cell, s.cell[1:])
	s.cell[s.Rows-1] = s.blank()
}

func (s *Screen) put(r rune) {
	if s.wrap {
		s.C, s.wrap = 0, false
		s.down()
	}
	s.cell[s.R][s.C] = r
	if s.C == s.Cols-1 {
		s.wrap = true
	} else {
		s.C++
	}
}

// Feed shows more output.
func (s *Screen) Feed(p []byte) {
	b := append(s.rest, p...)
	s.rest = nil
	for len(b) > 0 {
		c := b[0]
		switch {
		case c == 0x1b:
			n := s.escape(b)
			if n == 0 {
				s.rest = append([]byte{}, b...)
				return
			}
			b = b[n:]
			continue
		case c == '\r':
			s.C, s.wrap = 0, false
		case c == '\n', c == '\v', c == '\f':
			s.down()
			s.wrap = false
		case c == '\b':
			if s.C > 0 && !s.wrap {
				s.C--
			}
			s.wrap = false
		case c == '\t':
			s.wrap = false
			if s.C = (s.C/8 + 1) * 8; s.C >= s.Cols {
				s.C = s.Cols - 1
			}
		case c < 0x20 || c == 0x7f:
		default:
			if !utf8.FullRune(b) {
				s.rest = append([]byte{}, b...)
				return
			}
			r, n := utf8.DecodeRune(b)
			s.put(r)
			b = b[n:]
			continue
		}
		b = b[1:]
	}
}

func clamp(x, top int) int {
	if x < 0 {
		return 0
	}
	if x > top {
		return top
	}
	return x
}

// escape carries out the sequence at the start of b and gives its length, 0 if it is not complete.
func (s *Screen) escape(b []byte) int {
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case '7':
		s.saved = [2]int{s.R, s.C}
		return 2
	case '8':
		s.R, s.C, s.wrap = s.saved[0], s.saved[1], false
		return 2
	case '[':
	default:
		s.Odd = append(s.Odd, fmt.Sprintf("%q", b[:2]))
		return 2
	}
	i := 2
	for i < len(b) && b[i] >= 0x20 && b[i] <= 0x3f {
		i++
	}
	if i == len(b) {
		return 0
	}
	var ns []int
	for _, f := range strings.Split(string(b[2:i]), ";") {
		n := 0
		fmt.Sscanf(f, "%d", &n)
		ns = append(ns, n)
	}
	n, one := ns[0], ns[0]
	if one == 0 {
		one = 1
	}
	erase := func(r, from, to int) {
		for c := from; c < to; c++ {
			s.cell[r][c] = ' '
		}
	}
	if b[i] != 'm' {
		s.wrap = false
	}
	switch b[i] {
	case 'm', 'h', 'l', 'q':
	case 's':
		s.saved = [2]int{s.R, s.C}
	case 'u':
		s.R, s.C = s.saved[0], s.saved[1]
	case 'A':
		s.R = clamp(s.R-one, s.Rows-1)
	case 'B':
		s.R = clamp(s.R+one, s.Rows-1)
	case 'C':
		s.C = clamp(s.C+one, s.Cols-1)
	case 'D':
		s.C = clamp(s.C-one, s.Cols-1)
	case 'E':
		s.R, s.C = clamp(s.R+one, s.Rows-1), 0
	case 'F':
		s.R, s.C = clamp(s.R-one, s.Rows-1), 0
	case 'G':
		s.C = clamp(one-1, s.Cols-1)
	case 'H', 'f':
		c := 1
		if len(ns) > 1 && ns[1] > 0 {
			c = ns[1]
		}
		s.R, s.C = clamp(one-1, s.Rows-1), clamp(c-1, s.Cols-1)
	case 'K':
		switch n {
		case 0:
			erase(s.R, s.C, s.Cols)
		case 1:
			erase(s.R, 0, s.C+1)
		default:
			erase(s.R, 0, s.Cols)
		}
	case 'J':
		if n == 0 {
			erase(s.R, s.C, s.Cols)
			for r := s.R + 1; r < s.Rows; r++ {
				erase(r, 0, s.Cols)
			}
		} else if n == 1 {
			erase(s.R, 0, s.C+1)
			for r := 0; r < s.R; r++ {
				erase(r, 0, s.Cols)
			}
		} else {
			for r := 0; r < s.Rows; r++ {
				erase(r, 0, s.Cols)
			}
			if n == 3 {
				s.Scrolled = nil
			}
		}
	case 'P':
		copy(s.cell[s.R][s.C:], s.cell[s.R][clamp(s.C+one, s.Cols):])
		erase(s.R, clamp(s.Cols-one, s.Cols), s.Cols)
	case 'X':
		erase(s.R, s.C, clamp(s.C+one, s.Cols))
	default:
		s.Odd = append(s.Odd, fmt.Sprintf("%q", b[:i+1]))
	}
	return i + 1
}
