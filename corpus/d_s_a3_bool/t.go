package d_s_a3_bool

//json:json
type D [][3]bool
