package d_s_bool

//json:json
type D []bool
