package main

import (
	_ "github.com/vitelabs/go-vite/v2/zzverif/clustersim"
	"github.com/vitelabs/go-vite/v2/zzverif/core"
	_ "github.com/vitelabs/go-vite/v2/zzverif/ledgersim"
	_ "github.com/vitelabs/go-vite/v2/zzverif/storesim"
	_ "github.com/vitelabs/go-vite/v2/zzverif/vmsim"
	_ "github.com/vitelabs/go-vite/v2/zzverif/walletsim"
)

func main() { core.Main() }
