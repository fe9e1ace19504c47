package d_bool

//json:json
type D bool
