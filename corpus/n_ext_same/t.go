package t

import "fill/n_ext_same/mid"

//json:json
type T struct {
	A string `json:"a"`
	mid.M `json:",inline"`
}
