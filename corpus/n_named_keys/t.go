package t

import "fill/n_named_keys/k"

type Loc string

//json:json
type T struct {
	A map[Loc]int `json:"a"`
	B map[k.Key]string `json:"b,omitempty"`
	k.In `json:",inline"`
}

//json:json
type MK map[Loc]string

//json:json
type ML map[k.Key]int64
