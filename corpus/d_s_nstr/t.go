package d_s_nstr

//json:json
type D []NStr

type NStr string
