package t

import "fill/n_ext_hint2/mid"

//json:json
type T struct {
	A string `json:"a"`
	mid.M `json:",inline"`
}
