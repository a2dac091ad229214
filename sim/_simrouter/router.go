// Package simrouter gives the simulated router the wire codec of the AMQP
// client, so that both ends speak exactly the same frames.
package simrouter

import (
	"encoding/binary"
	"errors"

	"github.com/Azure/go-amqp/internal/buffer"
	"github.com/Azure/go-amqp/internal/encoding"
	"github.com/Azure/go-amqp/internal/frames"
)

// Frames and their parts.
type (
	Open        = frames.PerformOpen
	Begin       = frames.PerformBegin
	Attach      = frames.PerformAttach
	Flow        = frames.PerformFlow
	Transfer    = frames.PerformTransfer
	Disposition = frames.PerformDisposition
	Detach      = frames.PerformDetach
	End         = frames.PerformEnd
	Close       = frames.PerformClose
	Mechanisms  = frames.SASLMechanisms
	Outcome     = frames.SASLOutcome
	Source      = frames.Source
	Target      = frames.Target
	Error       = encoding.Error
	Accepted    = encoding.StateAccepted
	Rejected    = encoding.StateRejected
	Body        = frames.FrameBody
	Symbols     = encoding.MultiSymbol
)

// Roles of a link end.
const (
	RoleSender   = encoding.RoleSender
	RoleReceiver = encoding.RoleReceiver
)

// Err is an AMQP error.
func Err(cond, text string) *Error {
	return &Error{Condition: encoding.ErrCond(cond), Description: text}
}

// External is the only SASL mechanism.
var External = Symbols{"EXTERNAL"}

// Plain is another one.
var Plain = Symbols{"PLAIN"}

// SASLOutcome is the end of a SASL exchange.
func SASLOutcome(ok bool) *Outcome {
	if ok {
		return &Outcome{Code: encoding.CodeSASLOK}
	}
	return &Outcome{Code: encoding.CodeSASLAuth}
}

// IsSASLInit reports a frame the client's own parser does not know.
func IsSASLInit(raw []byte) bool { return len(raw) > 10 && raw[5] == 1 }

// Encode is the frame on the wire.
func Encode(sasl bool, channel uint16, body Body) []byte {
	fr := frames.Frame{Channel: channel, Body: body}
	if sasl {
		fr.Type = frames.TypeSASL
	}
	var b buffer.Buffer
	if err := frames.Write(&b, fr); err != nil {
		panic(err)
	}
	return append([]byte(nil), b.Bytes()...)
}

// Split takes the first whole frame off b; nil when there is none yet.
func Split(b []byte) (frame, rest []byte, err error) {
	if len(b) < 8 {
		return nil, b, nil
	}
	n := int(binary.BigEndian.Uint32(b))
	if n < 8 || n > 1<<24 {
		return nil, b, errors.New("bad frame size")
	}
	if len(b) < n {
		return nil, b, nil
	}
	return b[:n], b[n:], nil
}

// Decode parses a whole frame; a nil body is a keepalive.
func Decode(frame []byte) (channel uint16, body Body, err error) {
	channel = binary.BigEndian.Uint16(frame[6:])
	if len(frame) == 8 {
		return channel, nil, nil
	}
	body, err = frames.ParseBody(buffer.New(append([]byte(nil), frame[8:]...)))
	return channel, body, err
}
