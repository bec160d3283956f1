// Command vh runs the monitors that drive the whole stack.
package main

import "github.com/takenet/deckard/internal/zverif/vk"

func main() { vk.Main() }
