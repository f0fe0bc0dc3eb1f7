module vmc

go 1.23
