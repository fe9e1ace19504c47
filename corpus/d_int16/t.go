package d_int16

//json:json
type D int16
