package multi

import (
	"github.com/google/uuid"
	"time"
)

type row struct {
	X int `json:"x"`
}

type Row struct {
	Y string `json:"y"`
}

type num int32
type txt string
type flag bool
type flo float32
type mom time.Time

//json:json
type Lower []row

//json:json
type Upper []Row

// T1 has
// a comment
// of several
// lines
// before
// the
// directive
//
//json:strict,decode
type T1 struct {
	A, B, C, D, E int    `json:"a"`
	F, G, H, I    string `json:"f,omitempty"`
	J, K, L, M    *Sub2  `json:"j"`
	N, O, P, Q    []Sub2 `json:"n"`
}

//json:json
type Sub2 struct {
	X int `json:"x"`
}

//json:json
type T2 struct {
	E int      `json:"e,required" default:"4"`
	F string   `json:"f,required" default:"x"`
	H num      `json:"h,omitempty,required" default:"4"`
	J *num     `json:"j,required"`
	K *uint8   `json:"k,required"`
	L *float32 `json:"l,required,omitempty"`
	M **int    `json:"m,required"`
}

//json:decode
type T7 struct {
	A, B    [3]int         `json:"a"`
	C, D, E time.Time      `json:"c"`
	F, G, H uuid.UUID      `json:"f"`
	I, J, K map[string]int `json:"i"`
	L, M, N Sub2           `json:"l"`
	O, P, Q bool           `json:"o"`
	R, S, T []byte         `json:"r"`
	U, V, W flo            `json:"u"`
}

//json:json
type T8 struct {
	D, E, F, G int `json:"-"`
	H, I, J, K string `json:"-"`
	L, M, N, O []int `json:"-"`
	P, Q, R, S *Sub2 `json:"-"`
	T, U, V, W map[string]int `json:"-"`
	A int    `json:"-,omitempty,x"`
	B int    `json:"b"`
	C string `json:"-,"`
}

//json:json
type T9 struct {
	A num              `json:"a_member_with_a_long_name_a,omitempty"`
	B txt              `json:"a_member_with_a_long_name_b,omitempty"`
	C flag             `json:"a_member_with_a_long_name_c,omitempty"`
	D flo              `json:"a_member_with_a_long_name_d,omitempty"`
	E *num             `json:"a_member_with_a_long_name_e,omitempty"`
	F *txt             `json:"a_member_with_a_long_name_f,omitempty"`
	G *flag            `json:"a_member_with_a_long_name_g,omitempty"`
	H *flo             `json:"a_member_with_a_long_name_h,omitempty"`
	I mom              `json:"a_member_with_a_long_name_i,omitempty"`
	J []num            `json:"a_member_with_a_long_name_j,omitempty"`
	K map[string]txt   `json:"a_member_with_a_long_name_k,omitempty"`
	L []Sub2           `json:"a_member_with_a_long_name_l,omitempty"`
	M *Sub2            `json:"a_member_with_a_long_name_m,omitempty"`
	N Sub2             `json:"a_member_with_a_long_name_n,omitempty"`
	O map[string]*Sub2 `json:"a_member_with_a_long_name_o,omitempty"`
	P []*Sub2          `json:"a_member_with_a_long_name_p,omitempty"`
	Q int64            `json:"a_member_with_a_long_name_q"`
	R uint64           `json:"a_member_with_a_long_name_r,required"`
	S float64          `json:"a_member_with_a_long_name_s" default:"1.5"`
	T uuid.UUID        `json:"a_member_with_a_long_name_t,omitempty"`
	U []byte           `json:"a_member_with_a_long_name_u,omitempty"`
	V *uuid.UUID       `json:"a_member_with_a_long_name_v,omitempty"`
	W *time.Time       `json:"a_member_with_a_long_name_w,omitempty"`
}
