package ptrs

import "time"

type PT0 *bool
type PT1 *int
type PT2 *int8
type PT3 *int16
type PT4 *int32
type PT5 *int64
type PT6 *uint
type PT7 *uint8
type PT8 *uint16
type PT9 *uint32
type PT10 *uint64
type PT11 *float32
type PT12 *float64
type PT13 *string
type PT14 *time.Time

//json:json
type A struct {
	T time.Time `json:"t"`
	F0 PT0 `json:"f0"`
	F1 PT1 `json:"f1"`
	F2 PT2 `json:"f2"`
	F3 PT3 `json:"f3"`
	F4 PT4 `json:"f4"`
	F5 PT5 `json:"f5"`
	F6 PT6 `json:"f6"`
	F7 PT7 `json:"f7"`
	F8 PT8 `json:"f8"`
	F9 PT9 `json:"f9"`
	F10 PT10 `json:"f10"`
	F11 PT11 `json:"f11"`
	F12 PT12 `json:"f12"`
	F13 PT13 `json:"f13"`
	F14 PT14 `json:"f14"`
}

//json:json
type B struct {
	T time.Time `json:"t"`
	F0 PT0 `json:"f0,omitempty"`
	F1 PT1 `json:"f1,omitempty"`
	F2 PT2 `json:"f2,omitempty"`
	F3 PT3 `json:"f3,omitempty"`
	F4 PT4 `json:"f4,omitempty"`
	F5 PT5 `json:"f5,omitempty"`
	F6 PT6 `json:"f6,omitempty"`
	F7 PT7 `json:"f7,omitempty"`
	F8 PT8 `json:"f8,omitempty"`
	F9 PT9 `json:"f9,omitempty"`
	F10 PT10 `json:"f10,omitempty"`
	F11 PT11 `json:"f11,omitempty"`
	F12 PT12 `json:"f12,omitempty"`
	F13 PT13 `json:"f13,omitempty"`
	F14 PT14 `json:"f14,omitempty"`
}

//json:json
type C struct {
	T time.Time `json:"t"`
	F0 PT0 `json:"f0,required"`
	F1 PT1 `json:"f1,required"`
	F2 PT2 `json:"f2,required"`
	F3 PT3 `json:"f3,required"`
	F4 PT4 `json:"f4,required"`
	F5 PT5 `json:"f5,required"`
	F6 PT6 `json:"f6,required"`
	F7 PT7 `json:"f7,required"`
	F8 PT8 `json:"f8,required"`
	F9 PT9 `json:"f9,required"`
	F10 PT10 `json:"f10,required"`
	F11 PT11 `json:"f11,required"`
	F12 PT12 `json:"f12,required"`
	F13 PT13 `json:"f13,required"`
	F14 PT14 `json:"f14,required"`
}

//json:json
type D struct {
	T time.Time `json:"t"`
	F0 *PT0 `json:"f0"`
	F1 *PT1 `json:"f1"`
	F2 *PT2 `json:"f2"`
	F3 *PT3 `json:"f3"`
	F4 *PT4 `json:"f4"`
	F5 *PT5 `json:"f5"`
	F6 *PT6 `json:"f6"`
	F7 *PT7 `json:"f7"`
	F8 *PT8 `json:"f8"`
	F9 *PT9 `json:"f9"`
	F10 *PT10 `json:"f10"`
	F11 *PT11 `json:"f11"`
	F12 *PT12 `json:"f12"`
	F13 *PT13 `json:"f13"`
	F14 *PT14 `json:"f14"`
}

//json:json
type E struct {
	T time.Time `json:"t"`
	F0 PT0 `json:"f0" default:"true"`
	F1 PT1 `json:"f1" default:"7"`
	F2 PT2 `json:"f2" default:"7"`
	F3 PT3 `json:"f3" default:"7"`
	F4 PT4 `json:"f4" default:"7"`
	F5 PT5 `json:"f5" default:"7"`
	F6 PT6 `json:"f6" default:"7"`
	F7 PT7 `json:"f7" default:"7"`
	F8 PT8 `json:"f8" default:"7"`
	F9 PT9 `json:"f9" default:"7"`
	F10 PT10 `json:"f10" default:"7"`
	F11 PT11 `json:"f11" default:"7"`
	F12 PT12 `json:"f12" default:"7"`
	F13 PT13 `json:"f13" default:"abc"`
}

//json:json
type F struct {
	T time.Time `json:"t"`
	F0 PT0 `json:"f0,omitempty" layout:"2006"`
	F1 PT1 `json:"f1,omitempty" layout:"2006"`
	F2 PT2 `json:"f2,omitempty" layout:"2006"`
	F3 PT3 `json:"f3,omitempty" layout:"2006"`
	F4 PT4 `json:"f4,omitempty" layout:"2006"`
	F5 PT5 `json:"f5,omitempty" layout:"2006"`
	F6 PT6 `json:"f6,omitempty" layout:"2006"`
	F7 PT7 `json:"f7,omitempty" layout:"2006"`
	F8 PT8 `json:"f8,omitempty" layout:"2006"`
	F9 PT9 `json:"f9,omitempty" layout:"2006"`
	F10 PT10 `json:"f10,omitempty" layout:"2006"`
	F11 PT11 `json:"f11,omitempty" layout:"2006"`
	F12 PT12 `json:"f12,omitempty" layout:"2006"`
	F13 PT13 `json:"f13,omitempty" layout:"2006"`
	F14 PT14 `json:"f14,omitempty" layout:"2006"`
}

//json:json
type G struct {
	T time.Time `json:"t"`
	F0 *PT0 `json:"f0,omitempty"`
	F1 *PT1 `json:"f1,omitempty"`
	F2 *PT2 `json:"f2,omitempty"`
	F3 *PT3 `json:"f3,omitempty"`
	F4 *PT4 `json:"f4,omitempty"`
	F5 *PT5 `json:"f5,omitempty"`
	F6 *PT6 `json:"f6,omitempty"`
	F7 *PT7 `json:"f7,omitempty"`
	F8 *PT8 `json:"f8,omitempty"`
	F9 *PT9 `json:"f9,omitempty"`
	F10 *PT10 `json:"f10,omitempty"`
	F11 *PT11 `json:"f11,omitempty"`
	F12 *PT12 `json:"f12,omitempty"`
	F13 *PT13 `json:"f13,omitempty"`
	F14 *PT14 `json:"f14,omitempty"`
}
