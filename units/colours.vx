// The named colours: a frozen copy of the table (witness/core/data/colors.txt). Generated by tools/mkcolours.py.
pub open spec fn named_colour(k: Seq<char>) -> Option<(u8, u8, u8)> {
    if k == "Apricot"@ { Some((255u8, 184u8, 130u8)) } else
    if k == "Aquamarine"@ { Some((28u8, 191u8, 193u8)) } else
    if k == "Bittersweet"@ { Some((208u8, 76u8, 23u8)) } else
    if k == "Black"@ { Some((44u8, 46u8, 53u8)) } else
    if k == "Blue"@ { Some((16u8, 38u8, 148u8)) } else
    if k == "BlueGreen"@ { Some((20u8, 188u8, 188u8)) } else
    if k == "BlueViolet"@ { Some((45u8, 52u8, 151u8)) } else
    if k == "BrickRed"@ { Some((196u8, 49u8, 25u8)) } else
    if k == "Brown"@ { Some((119u8, 34u8, 6u8)) } else
    if k == "BurntOrange"@ { Some((255u8, 142u8, 39u8)) } else
    if k == "CadetBlue"@ { Some((99u8, 114u8, 157u8)) } else
    if k == "CarnationPink"@ { Some((252u8, 129u8, 188u8)) } else
    if k == "Cerulean"@ { Some((0u8, 173u8, 231u8)) } else
    if k == "CornflowerBlue"@ { Some((72u8, 187u8, 232u8)) } else
    if k == "Cyan"@ { Some((0u8, 185u8, 242u8)) } else
    if k == "Dandelion"@ { Some((255u8, 185u8, 76u8)) } else
    if k == "DarkOrchid"@ { Some((158u8, 80u8, 143u8)) } else
    if k == "Emerald"@ { Some((0u8, 177u8, 160u8)) } else
    if k == "ForestGreen"@ { Some((18u8, 159u8, 87u8)) } else
    if k == "Fuchsia"@ { Some((131u8, 55u8, 148u8)) } else
    if k == "Goldenrod"@ { Some((255u8, 219u8, 87u8)) } else
    if k == "Gray"@ { Some((155u8, 156u8, 159u8)) } else
    if k == "Green"@ { Some((0u8, 171u8, 79u8)) } else
    if k == "GreenYellow"@ { Some((225u8, 229u8, 123u8)) } else
    if k == "JungleGreen"@ { Some((0u8, 177u8, 157u8)) } else
    if k == "Lavender"@ { Some((253u8, 160u8, 204u8)) } else
    if k == "LimeGreen"@ { Some((136u8, 201u8, 70u8)) } else
    if k == "Magenta"@ { Some((251u8, 49u8, 153u8)) } else
    if k == "Mahogany"@ { Some((180u8, 50u8, 30u8)) } else
    if k == "Maroon"@ { Some((186u8, 49u8, 50u8)) } else
    if k == "Melon"@ { Some((255u8, 157u8, 123u8)) } else
    if k == "MidnightBlue"@ { Some((0u8, 104u8, 150u8)) } else
    if k == "Mulberry"@ { Some((168u8, 62u8, 158u8)) } else
    if k == "NavyBlue"@ { Some((8u8, 111u8, 189u8)) } else
    if k == "OliveGreen"@ { Some((63u8, 126u8, 49u8)) } else
    if k == "Orange"@ { Some((255u8, 124u8, 55u8)) } else
    if k == "OrangeRed"@ { Some((255u8, 46u8, 88u8)) } else
    if k == "Orchid"@ { Some((172u8, 114u8, 185u8)) } else
    if k == "Peach"@ { Some((255u8, 147u8, 88u8)) } else
    if k == "Periwinkle"@ { Some((106u8, 122u8, 191u8)) } else
    if k == "PineGreen"@ { Some((5u8, 141u8, 116u8)) } else
    if k == "Plum"@ { Some((135u8, 41u8, 150u8)) } else
    if k == "ProcessBlue"@ { Some((0u8, 187u8, 242u8)) } else
    if k == "Purple"@ { Some((143u8, 69u8, 163u8)) } else
    if k == "RawSienna"@ { Some((158u8, 60u8, 14u8)) } else
    if k == "Red"@ { Some((255u8, 46u8, 23u8)) } else
    if k == "RedOrange"@ { Some((255u8, 92u8, 49u8)) } else
    if k == "RedViolet"@ { Some((168u8, 44u8, 114u8)) } else
    if k == "Rhodamine"@ { Some((252u8, 88u8, 170u8)) } else
    if k == "RoyalBlue"@ { Some((0u8, 115u8, 192u8)) } else
    if k == "RoyalPurple"@ { Some((72u8, 57u8, 158u8)) } else
    if k == "RubineRed"@ { Some((253u8, 48u8, 136u8)) } else
    if k == "Salmon"@ { Some((255u8, 144u8, 138u8)) } else
    if k == "SeaGreen"@ { Some((71u8, 196u8, 160u8)) } else
    if k == "Sepia"@ { Some((93u8, 22u8, 1u8)) } else
    if k == "SkyBlue"@ { Some((80u8, 207u8, 226u8)) } else
    if k == "SpringGreen"@ { Some((196u8, 220u8, 110u8)) } else
    if k == "Tan"@ { Some((225u8, 157u8, 117u8)) } else
    if k == "TealBlue"@ { Some((17u8, 184u8, 184u8)) } else
    if k == "Thistle"@ { Some((222u8, 132u8, 191u8)) } else
    if k == "Turquoise"@ { Some((16u8, 190u8, 210u8)) } else
    if k == "Violet"@ { Some((61u8, 60u8, 159u8)) } else
    if k == "VioletRed"@ { Some((252u8, 90u8, 171u8)) } else
    if k == "White"@ { Some((255u8, 255u8, 255u8)) } else
    if k == "WildStrawberry"@ { Some((255u8, 55u8, 105u8)) } else
    if k == "Yellow"@ { Some((255u8, 235u8, 61u8)) } else
    if k == "YellowGreen"@ { Some((146u8, 208u8, 116u8)) } else
    if k == "YellowOrange"@ { Some((255u8, 159u8, 43u8)) } else
    if k == "black"@ { Some((0u8, 0u8, 0u8)) } else
    if k == "blue"@ { Some((0u8, 0u8, 255u8)) } else
    if k == "brown"@ { Some((191u8, 128u8, 63u8)) } else
    if k == "cyan"@ { Some((0u8, 185u8, 242u8)) } else
    if k == "darkgray"@ { Some((64u8, 64u8, 64u8)) } else
    if k == "gray"@ { Some((128u8, 128u8, 128u8)) } else
    if k == "green"@ { Some((3u8, 255u8, 0u8)) } else
    if k == "lightgray"@ { Some((191u8, 191u8, 191u8)) } else
    if k == "lime"@ { Some((191u8, 255u8, 4u8)) } else
    if k == "magenta"@ { Some((251u8, 49u8, 153u8)) } else
    if k == "olive"@ { Some((159u8, 140u8, 24u8)) } else
    if k == "orange"@ { Some((255u8, 128u8, 1u8)) } else
    if k == "pink"@ { Some((255u8, 191u8, 191u8)) } else
    if k == "purple"@ { Some((191u8, 1u8, 64u8)) } else
    if k == "red"@ { Some((255u8, 0u8, 0u8)) } else
    if k == "teal"@ { Some((0u8, 128u8, 128u8)) } else
    if k == "violet"@ { Some((128u8, 0u8, 128u8)) } else
    if k == "white"@ { Some((255u8, 255u8, 255u8)) } else
    if k == "yellow"@ { Some((255u8, 235u8, 61u8)) } else
    { None }
}
