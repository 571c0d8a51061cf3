package main

import (
	"bytes"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
)

// Histories are also played with every byte written a number of times: positions
// and lengths are multiples of it, and the content consists of equal blocks.
func init() {
	drivers["seekbuf"] = &Driver{New: func(cfg M) Session {
		b := &seekablebuffer.Buffer{}
		scale := max(num(cfg["x"]), 1)
		down := func(n int) int {
			if n%scale != 0 {
				return -99
			}
			return n / scale
		}
		return sessionFunc(func(op M) M {
			var res M
			switch str(op["op"]) {
			case "write":
				var p []byte
				if scale == 1 {
					p = private(op["p"])
				} else {
					for _, x := range byts(op["p"]) {
						p = append(p, bytes.Repeat([]byte{x}, scale)...)
					}
				}
				n, err := b.Write(p)
				// the caller owns its slice
				scribble(p)
				res = M{"n": down(n)}
				if err != nil {
					res = M{"err": true}
				}
			case "seek":
				w := map[string]int{"start": io.SeekStart, "current": io.SeekCurrent, "end": io.SeekEnd}[str(op["whence"])]
				n, err := b.Seek(int64(num(op["off"])*scale), w)
				res = M{"pos": down(int(n))}
				if err != nil {
					res = M{"err": true}
				}
			default:
				b.Reset()
				res = M{"done": true}
			}
			c := []int{}
			for rest := b.Bytes(); len(rest) > 0; rest = rest[min(scale, len(rest)):] {
				x := int(rest[0])
				if !bytes.Equal(rest[:min(scale, len(rest))], bytes.Repeat(rest[:1], scale)) {
					x = -1
				}
				c = append(c, x)
			}
			res["b"] = c
			res["len"] = down(b.Len())
			return res
		})
	}}
}
