package d_a3_string

//json:json
type D [3]string
