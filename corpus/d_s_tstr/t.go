package d_s_tstr

//json:json
type D []TStr

//json:json
type TStr string
