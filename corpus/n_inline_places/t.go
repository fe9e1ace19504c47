package inline

import (
	"time"

	"github.com/google/uuid"
)

type Str string

//json:json
type Obj struct {
	A int `json:"a"`
}

type One struct {
	P1 int `json:"p1"`
}

type Two struct {
	Q1 string     `json:"q1,required"`
	Q2 *int       `json:"q2,omitempty"`
	Q3 time.Time  `json:"q3" layout:"2006-01-02"`
	Q4 uuid.UUID  `json:"q4"`
	Q5 Str        `json:"q5" default:"five"`
	Q6 Obj        `json:"q6"`
	Q7 []Obj      `json:"q7"`
	Q8 map[Str]int `json:"q8,omitempty"`
	Q9 *Obj       `json:"q9"`
}

type Three struct {
	Two `json:",inline"`
	One `json:",inline"`
	R   bool `json:"r"`
}

//json:strict
type First struct {
	One `json:",inline"`
	A   int `json:"a"`
}

//json:strict
type Middle struct {
	A   int `json:"a"`
	One `json:",inline"`
	B   int `json:"b"`
}

//json:strict
type Last struct {
	A   int `json:"a"`
	B   string `json:"b,omitempty"`
	Two `json:",inline"`
}

//json:json
type Both struct {
	One `json:",inline"`
	Two `json:",inline"`
}

//json:strict
type Deep struct {
	A     int `json:"a"`
	Three `json:",inline"`
	Z     int `json:"z,omitempty"`
}

//json:json
type Mixed struct {
	Obj  `json:"obj"`
	One  `json:",inline"`
	Next *Mixed `json:"next"`
}

//json:encode
type Enc struct {
	Three `json:",inline"`
}

//json:decode,strict
type Dec struct {
	Three `json:",inline"`
}
