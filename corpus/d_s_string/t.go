package d_s_string

//json:json
type D []string
