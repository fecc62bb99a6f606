// Package chunkedbody is a stand-in for github.com/indigo-web/chunkedbody v0.1.0 (not
// available offline): a push parser of the chunked transfer coding.
package chunkedbody

import (
	"errors"
	"io"
)

var (
	ErrBadRequest = errors.New("malformed chunk-encoded data")
	ErrTooLarge   = errors.New("too large chunk")
)

type Settings struct{ MaxChunkSize int64 }

func DefaultSettings() Settings { return Settings{MaxChunkSize: 128 * 1024} }

type state uint8

const (
	sLen0 state = iota
	sLen
	sExt
	sLenLF
	sData
	sDataEnd
	sDataLF
	sLast
	sLastLF
	sTrailer
	sTrailerLine
)

type Parser struct {
	settings Settings
	state    state
	left     int64
}

func NewParser(s Settings) *Parser { return &Parser{settings: s} }

func unhex(c byte) int64 {
	switch {
	case '0' <= c && c <= '9':
		return int64(c - '0')
	case 'a' <= c && c <= 'f':
		return int64(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int64(c-'A') + 10
	}
	return -1
}

// Parse consumes data and returns at most one piece of a chunk and the unconsumed rest.
// io.EOF tells the body is complete; extra then belongs to the next request.
func (p *Parser) Parse(data []byte, trailer bool) (chunk, extra []byte, err error) {
	for i := 0; i < len(data); i++ {
		c := data[i]
		switch p.state {
		case sLen0, sLen:
			if v := unhex(c); v >= 0 {
				p.left = p.left<<4 | v
				if p.left > p.settings.MaxChunkSize {
					return nil, nil, ErrTooLarge
				}
				p.state = sLen
				continue
			}
			if p.state == sLen0 {
				return nil, nil, ErrBadRequest
			}
			switch c {
			case ';':
				p.state = sExt
			case '\r':
				p.state = sLenLF
			case '\n':
				p.lenDone(trailer)
			default:
				return nil, nil, ErrBadRequest
			}
		case sExt:
			if c == '\r' {
				p.state = sLenLF
			} else if c == '\n' {
				p.lenDone(trailer)
			}
		case sLenLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}
			p.lenDone(trailer)
		case sData:
			rest := data[i:]
			if int64(len(rest)) > p.left {
				rest = rest[:p.left]
			}
			p.left -= int64(len(rest))
			if p.left == 0 {
				p.state = sDataEnd
			}
			return rest, data[i+len(rest):], nil
		case sDataEnd:
			switch c {
			case '\r':
				p.state = sDataLF
			case '\n':
				p.state = sLen0
			default:
				return nil, nil, ErrBadRequest
			}
		case sDataLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}
			p.state = sLen0
		case sLast:
			switch c {
			case '\r':
				p.state = sLastLF
			case '\n':
				p.state = sLen0
				return nil, data[i+1:], io.EOF
			default:
				return nil, nil, ErrBadRequest
			}
		case sLastLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}
			p.state = sLen0
			return nil, data[i+1:], io.EOF
		case sTrailer:
			switch c {
			case '\r':
				p.state = sLastLF
			case '\n':
				p.state = sLen0
				return nil, data[i+1:], io.EOF
			default:
				p.state = sTrailerLine
			}
		case sTrailerLine:
			if c == '\n' {
				p.state = sTrailer
			}
		}
	}
	return nil, nil, nil
}

func (p *Parser) lenDone(trailer bool) {
	switch {
	case p.left > 0:
		p.state = sData
	case trailer:
		p.state = sTrailer
	default:
		p.state = sLast
	}
}
