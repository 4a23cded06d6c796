// Package fitsref is an independent reference encoder/decoder for simple FITS
// files, written from the FITS standard, used as oracle.
package fitsref

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Card formats one 80 character header card.
func Card(s string) string {
	if len(s) > 80 {
		panic("card too long: " + s)
	}
	return s + strings.Repeat(" ", 80-len(s))
}

// KV formats a keyword = value card in fixed format.
func KV(key, val string) string { return Card(fmt.Sprintf("%-8s= %20s", key, val)) }

// Build assembles cards and raw data into a file image.
func Build(cards []string, data []byte, pad bool) []byte {
	var b bytes.Buffer
	for _, c := range cards {
		b.WriteString(c)
	}
	b.WriteString(Card("END"))
	for b.Len()%2880 != 0 {
		b.WriteByte(' ')
	}
	b.Write(data)
	if pad {
		for b.Len()%2880 != 0 {
			b.WriteByte(0)
		}
	}
	return b.Bytes()
}

// EncodeValue appends one sample in the given BITPIX, from an integer or float.
func EncodeValue(b []byte, bitpix int, i int64, f float64) []byte {
	switch bitpix {
	case 8:
		return append(b, byte(i))
	case 16:
		return binary.BigEndian.AppendUint16(b, uint16(i))
	case 32:
		return binary.BigEndian.AppendUint32(b, uint32(i))
	case 64:
		return binary.BigEndian.AppendUint64(b, uint64(i))
	case -32:
		return binary.BigEndian.AppendUint32(b, math.Float32bits(float32(f)))
	case -64:
		return binary.BigEndian.AppendUint64(b, math.Float64bits(f))
	}
	panic("bitpix")
}

// Parsed is a FITS file parsed by the reference reader.
type Parsed struct {
	Cards   []string
	Val     map[string]string // raw value text without comment, strings with quotes removed and unescaped
	Count   map[string]int
	IsStr   map[string]bool
	Order   []string
	Bitpix  int
	Axes    []int
	Data    []byte // exactly the declared data
	Padding int    // bytes after the data
}

// Parse reads a FITS file strictly, as another program would.
func Parse(b []byte) (*Parsed, error) {
	if len(b)%2880 != 0 {
		return nil, fmt.Errorf("file length %d is not a multiple of 2880", len(b))
	}
	p := &Parsed{Val: map[string]string{}, Count: map[string]int{}, IsStr: map[string]bool{}}
	pos := 0
	end := false
	for ; pos+80 <= len(b); pos += 80 {
		card := string(b[pos : pos+80])
		for _, ch := range []byte(card) {
			if ch < 32 || ch > 126 {
				return nil, fmt.Errorf("non-ASCII byte %d in card %q", ch, card)
			}
		}
		key := strings.TrimRight(card[:8], " ")
		if key == "END" {
			if strings.TrimSpace(card[8:]) != "" {
				return nil, fmt.Errorf("END card not blank: %q", card)
			}
			pos += 80
			end = true
			break
		}
		p.Cards = append(p.Cards, card)
		if key == "CONTINUE" { // continues the string of the preceding card
			s, err := quoted(card[8:])
			if err != nil {
				return nil, err
			}
			last := p.Order[len(p.Order)-1]
			if !p.IsStr[last] || !strings.HasSuffix(p.Val[last], "&") {
				return nil, fmt.Errorf("CONTINUE after a card which is not continued: %q", card)
			}
			p.Val[last] = strings.TrimSuffix(p.Val[last], "&") + s
			continue
		}
		if card[8:10] != "= " {
			continue
		}
		p.Order = append(p.Order, key)
		p.Count[key]++
		rest := strings.TrimLeft(card[10:], " ")
		if strings.HasPrefix(rest, "'") {
			v, err := quoted(rest)
			if err != nil {
				return nil, err
			}
			p.Val[key] = v
			p.IsStr[key] = true
		} else {
			if i := strings.Index(rest, "/"); i >= 0 {
				rest = rest[:i]
			}
			v := strings.TrimSpace(rest)
			p.Val[key] = v
			if v == "T" || v == "F" || v == "" {
				continue
			}
			if strings.ContainsAny(v, "ed") {
				return nil, fmt.Errorf("lower case exponent in %q", card)
			}
			if _, err := strconv.ParseFloat(strings.Replace(v, "D", "E", 1), 64); err != nil {
				return nil, fmt.Errorf("bad value in %q", card)
			}
		}
	}
	if !end {
		return nil, fmt.Errorf("no END card")
	}
	for ; pos%2880 != 0; pos++ {
		if b[pos] != ' ' {
			return nil, fmt.Errorf("header padding is not blank")
		}
	}
	need := []string{"SIMPLE", "BITPIX", "NAXIS"}
	for i, k := range need {
		if len(p.Order) <= i || p.Order[i] != k {
			return nil, fmt.Errorf("card %d is not %s", i, k)
		}
	}
	if p.Val["SIMPLE"] != "T" {
		return nil, fmt.Errorf("SIMPLE is not T")
	}
	p.Bitpix, _ = strconv.Atoi(p.Val["BITPIX"])
	n, err := strconv.Atoi(p.Val["NAXIS"])
	if err != nil {
		return nil, err
	}
	total := 1
	for i := 1; i <= n; i++ {
		k := fmt.Sprintf("NAXIS%d", i)
		if len(p.Order) <= 2+i || p.Order[2+i] != k {
			return nil, fmt.Errorf("card %d is not %s", 2+i, k)
		}
		v, err := strconv.Atoi(p.Val[k])
		if err != nil {
			return nil, err
		}
		p.Axes = append(p.Axes, v)
		total *= v
	}
	bytesPer := p.Bitpix / 8
	if bytesPer < 0 {
		bytesPer = -bytesPer
	}
	if pos+total*bytesPer > len(b) {
		return nil, fmt.Errorf("data truncated: need %d have %d", total*bytesPer, len(b)-pos)
	}
	p.Data = b[pos : pos+total*bytesPer]
	p.Padding = len(b) - pos - total*bytesPer
	if p.Padding >= 2880 {
		return nil, fmt.Errorf("%d bytes after the data", p.Padding)
	}
	return p, nil
}


// quoted parses a string value with optional comment; trailing blanks are insignificant.
func quoted(card string) (string, error) {
	rest := strings.TrimLeft(card, " ")
	if !strings.HasPrefix(rest, "'") {
		return "", fmt.Errorf("no string in %q", card)
	}
	var sb strings.Builder
	i := 1
	closed := false
	for i < len(rest) {
		if rest[i] == '\'' {
			if i+1 < len(rest) && rest[i+1] == '\'' {
				sb.WriteByte('\'')
				i += 2
				continue
			}
			closed = true
			i++
			break
		}
		sb.WriteByte(rest[i])
		i++
	}
	if !closed {
		return "", fmt.Errorf("unterminated string in %q", card)
	}
	t := strings.TrimSpace(rest[i:])
	if t != "" && t[0] != '/' {
		return "", fmt.Errorf("junk after string in %q", card)
	}
	return strings.TrimRight(sb.String(), " "), nil
}
