package d_int

//json:json
type D int
