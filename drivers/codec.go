// Driver: encode and decode wire-format primitives.
package main

import (
	"bytes"

	"github.com/squizzling/osmindex/internal/pb"
)

type request struct {
	Op  string
	Pre []byte // bytes already in the buffer
	Suf []byte // bytes that follow when decoding
	U   []uint64
	B   []byte
	ID  uint64
	N   int
	Raw []byte // decode: the bytes to decode
}

type item struct {
	Panic string   `json:",omitempty"`
	Enc   []byte   `json:",omitempty"`
	U     []uint64 `json:",omitempty"`
	B     []byte   `json:",omitempty"`
	Next  int
	Keep  bool // the bytes before were kept
}

func i64s(u []uint64) []int64 {
	o := make([]int64, len(u))
	for i, v := range u {
		o[i] = int64(v)
	}
	return o
}

func i32s(u []uint64) []int32 {
	o := make([]int32, len(u))
	for i, v := range u {
		o[i] = int32(uint32(v))
	}
	return o
}

func u32s(u []uint64) []uint32 {
	o := make([]uint32, len(u))
	for i, v := range u {
		o[i] = uint32(v)
	}
	return o
}

func fill(n int) pb.Embedder {
	return func(buf []byte) []byte {
		for i := 0; i < n; i++ {
			buf = append(buf, byte(i*7+3))
		}
		return buf
	}
}

func encode(r *request, buf []byte) []byte {
	switch r.Op {
	case "varint":
		return pb.EncodeVarInt(buf, r.U[0])
	case "idvarint":
		return pb.EncodeIdVarInt(buf, r.ID, r.U[0])
	case "zigzag":
		return pb.EncodeVarInt(buf, pb.EncodeZigZag(int64(r.U[0])))
	case "buffer":
		return pb.EncodeBuffer(buf, r.B)
	case "idbuffer":
		return pb.EncodeIdBuffer(buf, r.ID, r.B)
	case "string":
		return pb.EncodeString(buf, string(r.B))
	case "s32packed":
		return pb.EncodeS32Packed(buf, i32s(r.U))
	case "s32delta":
		return pb.EncodeS32PackedDelta(buf, i32s(r.U))
	case "i32packed":
		return pb.EncodeI32Packed(buf, i32s(r.U))
	case "s64delta":
		return pb.EncodeS64PackedDelta(buf, i64s(r.U))
	case "s64deltazero":
		return pb.EncodeS64PackedDeltaZero(buf, i64s(r.U))
	case "i32func":
		return pb.EncodeI32PackedFunc(i32s(r.U))(buf)
	case "u32func":
		return pb.EncodeU32PackedFunc(u32s(r.U))(buf)
	case "u64func":
		return pb.EncodeU64Packed(r.U)(buf)
	case "s64deltafunc":
		return pb.EncodeS64PackedDeltaFunc(i64s(r.U))(buf)
	case "embed128":
		return pb.Embed128(r.ID, fill(r.N), buf)
	case "embed16384":
		return pb.Embed16384(r.ID, fill(r.N), buf)
	case "embed2097152":
		return pb.Embed2097152(r.ID, fill(r.N), buf)
	case "embed268435456":
		return pb.Embed268435456(r.ID, fill(r.N), buf)
	case "embedint128":
		n := len(buf)
		buf = pb.Reserve128(buf)
		pb.EmbedInt128(buf[n:], r.N)
		return buf
	case "embedint16384":
		n := len(buf)
		buf = pb.Reserve16384(buf)
		pb.EmbedInt16384(buf[n:], r.N)
		return buf
	case "embedint2097152":
		n := len(buf)
		buf = pb.Reserve2097152(buf)
		pb.EmbedInt2097152(buf[n:], r.N)
		return buf
	case "embedint268435456":
		n := len(buf)
		buf = pb.Reserve268435456(buf)
		pb.EmbedInt268435456(buf[n:], r.N)
		return buf
	}
	drvFail("op %q", r.Op)
	return nil
}

func decode(r *request, buf []byte, next *int) (u []uint64, b []byte) {
	one := func(v uint64) { u = append(u, v) }
	many64 := func(v []int64) {
		for _, x := range v {
			u = append(u, uint64(x))
		}
	}
	many32 := func(v []int32) {
		for _, x := range v {
			u = append(u, uint64(int64(x)))
		}
	}
	switch r.Op {
	case "varint":
		one(pb.DecodeVarInt(buf, next))
	case "zigzag":
		one(uint64(pb.DecodeZigZag(pb.DecodeVarInt(buf, next))))
	case "s32":
		one(uint64(int64(pb.DecodeS32(buf, next))))
	case "i32":
		one(uint64(int64(pb.DecodeI32(buf, next))))
	case "u32":
		one(uint64(pb.DecodeU32(buf, next)))
	case "s64":
		one(uint64(pb.DecodeS64(buf, next)))
	case "i64":
		one(uint64(pb.DecodeI64(buf, next)))
	case "u64":
		one(pb.DecodeU64(buf, next))
	case "s32opt":
		one(uint64(int64(*pb.DecodeS32Opt(buf, next))))
	case "i32opt":
		one(uint64(int64(*pb.DecodeI32Opt(buf, next))))
	case "u32opt":
		one(uint64(*pb.DecodeU32Opt(buf, next)))
	case "s64opt":
		one(uint64(*pb.DecodeS64Opt(buf, next)))
	case "i64opt":
		one(uint64(*pb.DecodeI64Opt(buf, next)))
	case "u64opt":
		one(*pb.DecodeU64Opt(buf, next))
	case "bytes":
		b = pb.DecodeBytes(buf, next)
	case "readbytes":
		b = pb.ReadBytes(buf, next)
	case "string":
		b = []byte(pb.DecodeString(buf, next))
	case "stringopt":
		b = []byte(*pb.DecodeStringOpt(buf, next))
	case "skip":
		pb.SkipBytes(buf, next)
	case "s32packed":
		many32(pb.DecodeS32Packed(buf, next))
	case "i32packed":
		many32(pb.DecodeI32Packed(buf, next))
	case "u32packed":
		for _, x := range pb.DecodeU32Packed(buf, next) {
			one(uint64(x))
		}
	case "s64delta":
		many64(pb.DecodeS64PackedDelta(buf, next))
	case "s64packed":
		many64(pb.DecodeS64Packed(buf, next))
	case "u64packed":
		u = append(u, pb.DecodeU64Packed(buf, next)...)
	case "s64deltazero":
		many64(pb.DecodeS64PackedDeltaZero(buf[*next:]))
	default:
		drvFail("op %q", r.Op)
	}
	return
}

func run(r *request) (it item) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(driverError); ok {
				panic(x)
			}
			it = item{Panic: "panic"}
		}
	}()
	if r.Raw == nil {
		// spare capacity after the prefix makes appends happen in place
		buf := make([]byte, len(r.Pre), len(r.Pre)+r.N%64+8)
		copy(buf, r.Pre)
		buf = encode(r, buf)
		if len(buf) < len(r.Pre) {
			return item{Keep: false}
		}
		it.Keep = bytes.Equal(buf[:len(r.Pre)], r.Pre)
		it.Enc = append([]byte{}, buf[len(r.Pre):]...)
		return
	}
	full := append(append(append([]byte{}, r.Pre...), r.Raw...), r.Suf...)
	orig := append([]byte{}, full...)
	next := len(r.Pre)
	it.U, it.B = decode(r, full, &next)
	it.B = append([]byte{}, it.B...)
	it.Next = next - len(r.Pre)
	it.Keep = bytes.Equal(full, orig)
	return
}

func main() {
	serve(func(line []byte) interface{} {
		var rs []request
		parse(line, &rs)
		out := make([]item, len(rs))
		for i := range rs {
			out[i] = run(&rs[i])
		}
		return out
	})
}
