package f_p_time

import (
	"time"
)

//json:json
type T1 struct {
	A0 int        `json:"a0,omitempty"`
	F  *time.Time `json:"f"`
	Z  string     `json:"z"`
}

//json:json
type T2 struct {
	F *time.Time `json:"f,omitempty"`
	G *time.Time `json:"g"`
	H *time.Time `json:"h,omitempty"`
}

//json:strict
type T3 struct {
	F *time.Time `json:"f,required"`
	B bool       `json:"b"`
}

//json:json
type T5 struct {
	F *time.Time `json:"f" layout:"2006-01-02"`
	G *time.Time `json:"g,omitempty" layout:"2006-01-02"`
	H *time.Time `json:"h"`
}

//json:json
type T6 struct {
	F *time.Time `json:"f" layout:"time.RFC1123"`
	G *time.Time `json:"g,omitempty" layout:"time.RFC1123"`
	H *time.Time `json:"h"`
}

//json:json
type T7 struct {
	F *time.Time `json:"f" layout:"time.RFC3339"`
	G *time.Time `json:"g,omitempty" layout:"time.RFC3339"`
	H *time.Time `json:"h"`
}

//json:json
type T8 struct {
	F *time.Time `json:"f" layout:"15:04 \"q\""`
	G *time.Time `json:"g,omitempty" layout:"15:04 \"q\""`
	H *time.Time `json:"h"`
}

//json:json
type T9 struct {
	F *time.Time `json:"f" layout:"time.Kitchen"`
	G *time.Time `json:"g,omitempty" layout:"time.Kitchen"`
	H *time.Time `json:"h"`
}
