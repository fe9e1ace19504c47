package d_s_a3_string

//json:json
type D [][3]string
