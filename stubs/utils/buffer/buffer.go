// Package buffer is a stand-in for github.com/indigo-web/utils/buffer v0.6.2 (not
// available offline): an arena of consecutive segments with an upper bound on its size.
package buffer

type Buffer struct {
	memory  []byte
	begin   int
	maxSize int
}

// New returns a buffer with initialSize bytes pre-allocated and at most maxSize bytes.
func New(initialSize, maxSize int) *Buffer {
	return &Buffer{memory: make([]byte, 0, initialSize), maxSize: maxSize}
}

// Append adds bytes to the current segment; false (and no effect) if the limit would be exceeded.
func (b *Buffer) Append(elements []byte) bool {
	if len(b.memory)+len(elements) > b.maxSize {
		return false
	}

	b.memory = append(b.memory, elements...)
	return true
}

// SegmentLength is the number of bytes in the current (unfinished) segment.
func (b *Buffer) SegmentLength() int {
	return len(b.memory) - b.begin
}

// Discard drops the last n bytes of the current segment.
func (b *Buffer) Discard(n int) {
	b.memory = b.memory[:len(b.memory)-n]
}

// Preview returns the current segment without completing it.
func (b *Buffer) Preview() []byte {
	return b.memory[b.begin:]
}

// Finish completes the current segment, returning its content.
func (b *Buffer) Finish() []byte {
	segment := b.memory[b.begin:]
	b.begin = len(b.memory)
	return segment
}

// Clear drops everything.
func (b *Buffer) Clear() {
	b.begin = 0
	b.memory = b.memory[:0]
}
