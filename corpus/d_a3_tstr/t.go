package d_a3_tstr

//json:json
type D [3]TStr

//json:json
type TStr string
