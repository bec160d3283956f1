// Command lite holds the monitors that need only the packages without backends.
package main

import "github.com/takenet/deckard/internal/zverif/vk"

func main() { vk.Main() }
