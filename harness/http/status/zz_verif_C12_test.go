package status

import (
	"fmt"
	"testing"
)

var verifText = map[int]string{100: "Continue", 101: "Switching Protocols", 102: "Processing", 103: "Early Hints",
	200: "OK", 201: "Created", 202: "Accepted", 203: "Non-Authoritative Information", 204: "No Content", 205: "Reset Content", 206: "Partial Content", 207: "Multi-Status", 208: "Already Reported", 226: "IM Used",
	300: "Multiple Choices", 301: "Moved Permanently", 302: "Found", 303: "See Other", 304: "Not Modified", 305: "Use Proxy", 307: "Temporary Redirect", 308: "Permanent Redirect",
	400: "Bad Request", 401: "Unauthorized", 402: "Payment Required", 403: "Forbidden", 404: "Not Found", 405: "Method Not Allowed", 406: "Not Acceptable", 407: "Proxy Authentication Required", 408: "Request Timeout", 409: "Conflict", 410: "Gone", 411: "Length Required", 412: "Precondition Failed", 413: "Request Entity Too Large", 414: "Request URI Too Long", 415: "Unsupported Media Type", 416: "Requested Range Not Satisfiable", 417: "Expectation Failed", 418: "I'm a teapot", 421: "Misdirected Request", 422: "Unprocessable Entity", 423: "Locked", 424: "Failed Dependency", 425: "Too Early", 426: "Upgrade Required", 428: "Precondition Required", 429: "Too Many Requests", 431: "Request Header Fields Too Large", 451: "Unavailable For Legal Reasons",
	500: "Internal Server Error", 501: "Not Implemented", 502: "Bad Gateway", 503: "Service Unavailable", 504: "Gateway Timeout", 505: "HTTP Version Not Supported", 506: "Variant Also Negotiates", 507: "Insufficient Storage", 508: "Loop Detected", 510: "Not Extended", 511: "Network Authentication Required"}

var verifErrs = map[string]struct {
	err  error
	code int
}{
	"ErrConnectionTimeout":             {ErrConnectionTimeout, 408},
	"ErrCloseConnection":               {ErrCloseConnection, 439},
	"ErrShutdown":                      {ErrShutdown, 439},
	"ErrGracefulShutdown":              {ErrGracefulShutdown, 439},
	"ErrBadRequest":                    {ErrBadRequest, 400},
	"ErrTooLongRequestLine":            {ErrTooLongRequestLine, 400},
	"ErrURIDecoding":                   {ErrURIDecoding, 400},
	"ErrBadQuery":                      {ErrBadQuery, 400},
	"ErrNotFound":                      {ErrNotFound, 404},
	"ErrInternalServerError":           {ErrInternalServerError, 500},
	"ErrNotImplemented":                {ErrNotImplemented, 501},
	"ErrMethodNotImplemented":          {ErrMethodNotImplemented, 501},
	"ErrMethodNotAllowed":              {ErrMethodNotAllowed, 405},
	"ErrTooLarge":                      {ErrTooLarge, 413},
	"ErrBodyTooLarge":                  {ErrBodyTooLarge, 413},
	"ErrRequestEntityTooLarge":         {ErrRequestEntityTooLarge, 413},
	"ErrHeaderFieldsTooLarge":          {ErrHeaderFieldsTooLarge, 431},
	"ErrHeaderKeyTooLarge":             {ErrHeaderKeyTooLarge, 431},
	"ErrHeaderValueTooLarge":           {ErrHeaderValueTooLarge, 431},
	"ErrTooManyHeaders":                {ErrTooManyHeaders, 431},
	"ErrRequestHeaderFieldsTooLarge":   {ErrRequestHeaderFieldsTooLarge, 431},
	"ErrURITooLong":                    {ErrURITooLong, 414},
	"ErrRequestURITooLong":             {ErrRequestURITooLong, 414},
	"ErrUnsupportedProtocol":           {ErrUnsupportedProtocol, 505},
	"ErrHTTPVersionNotSupported":       {ErrHTTPVersionNotSupported, 505},
	"ErrUnauthorized":                  {ErrUnauthorized, 401},
	"ErrPaymentRequired":               {ErrPaymentRequired, 402},
	"ErrForbidden":                     {ErrForbidden, 403},
	"ErrNotAcceptable":                 {ErrNotAcceptable, 406},
	"ErrProxyAuthRequired":             {ErrProxyAuthRequired, 407},
	"ErrRequestTimeout":                {ErrRequestTimeout, 408},
	"ErrConflict":                      {ErrConflict, 409},
	"ErrGone":                          {ErrGone, 410},
	"ErrLengthRequired":                {ErrLengthRequired, 411},
	"ErrPreconditionFailed":            {ErrPreconditionFailed, 412},
	"ErrUnsupportedMediaType":          {ErrUnsupportedMediaType, 415},
	"ErrUnsupportedEncoding":           {ErrUnsupportedEncoding, 415},
	"ErrRequestedRangeNotSatisfiable":  {ErrRequestedRangeNotSatisfiable, 416},
	"ErrExpectationFailed":             {ErrExpectationFailed, 417},
	"ErrTeapot":                        {ErrTeapot, 418},
	"ErrMisdirectedRequest":            {ErrMisdirectedRequest, 421},
	"ErrUnprocessableEntity":           {ErrUnprocessableEntity, 422},
	"ErrLocked":                        {ErrLocked, 423},
	"ErrFailedDependency":              {ErrFailedDependency, 424},
	"ErrTooEarly":                      {ErrTooEarly, 425},
	"ErrUpgradeRequired":               {ErrUpgradeRequired, 426},
	"ErrPreconditionRequired":          {ErrPreconditionRequired, 428},
	"ErrTooManyRequests":               {ErrTooManyRequests, 429},
	"ErrUnavailableForLegalReasons":    {ErrUnavailableForLegalReasons, 451},
	"ErrBadGateway":                    {ErrBadGateway, 502},
	"ErrServiceUnavailable":            {ErrServiceUnavailable, 503},
	"ErrGatewayTimeout":                {ErrGatewayTimeout, 504},
	"ErrVariantAlsoNegotiates":         {ErrVariantAlsoNegotiates, 506},
	"ErrInsufficientStorage":           {ErrInsufficientStorage, 507},
	"ErrLoopDetected":                  {ErrLoopDetected, 508},
	"ErrNotExtended":                   {ErrNotExtended, 510},
	"ErrNetworkAuthenticationRequired": {ErrNetworkAuthenticationRequired, 511},
}

func TestVerifC12(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	for n, e := range verifErrs {
		n, e := n, e
		v.Case(func() string { return "predefined error " + n }, func() {
			h, ok := e.err.(HTTPError)
			v.Check(ok && int(h.Code) == e.code && h.Error() == h.Message, "%s has code %d, want %d", n, h.Code, e.code)
		})
	}
	for c := 0; c <= 65535; c++ {
		c := c
		v.Case(func() string { return fmt.Sprintf("status code %d", c) }, func() {
			text, known := verifText[c]
			if known {
				v.Check(string(Text(Code(c))) == text, "Text gives %q, want %q", Text(Code(c)), text)
				v.Check(Line(Code(c)) == fmt.Sprintf("%d %s\r\n", c, text), "Line gives %q", Line(Code(c)))
			} else {
				v.Check(Line(Code(c)) == "", "Line gives %q for an unregistered code", Line(Code(c)))
			}
			e, ok := NewError(Code(c), "some message").(HTTPError)
			v.Check(ok && e.Code == Code(c) && e.Message == "some message" && e.Error() == "some message", "NewError gives %v", e)
		})
	}
}
