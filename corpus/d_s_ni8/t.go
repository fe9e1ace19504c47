package d_s_ni8

//json:json
type D []NI8

type NI8 int8
