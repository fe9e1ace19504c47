package deep

import "time"

//json:json
type T1 struct {
	A [2]time.Time `json:"a"`
	B [2]time.Time `json:"b,omitempty"`
	C int `json:"c"`
}

//json:json
type Sub struct {
	X int `json:"x"`
}

type Key string
