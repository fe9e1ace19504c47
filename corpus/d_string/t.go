package d_string

//json:json
type D string
