package times

import "time"

//json:json
type T1 struct {
	A time.Time  `json:"a" layout:"2006-01-02"`
	B time.Time  `json:"b,omitempty" layout:"15:04"`
	C *time.Time `json:"c" layout:"02.01.2006 15:04:05"`
	D *time.Time `json:"d,omitempty" layout:"Jan 2, 2006 at 3:04pm (MST)"`
	E time.Time  `json:"e"`
	F *time.Time `json:"f"`
}

//json:strict
type T2 struct {
	A time.Time  `json:"a" layout:"time.RFC1123Z"`
	B *time.Time `json:"b" layout:"time.RFC1123"`
	C time.Time  `json:"c,omitempty" layout:"time.Kitchen"`
	D time.Time  `json:"d,required" layout:"time.DateOnly"`
	E time.Time  `json:"e" layout:"Mon, 02 Jan 2006"`
}
