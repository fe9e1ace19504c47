module vgo

go 1.23
