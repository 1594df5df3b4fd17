package main

import (
	"unicode"

	"github.com/npillmayer/uax/shaping"
)

// all tables exported by package shaping
var shapingTables = map[string]*unicode.RangeTable{
	"ARAB_C":                           shaping.ARAB_C,
	"ARAB_D":                           shaping.ARAB_D,
	"ARAB_L":                           shaping.ARAB_L,
	"ARAB_R":                           shaping.ARAB_R,
	"ARAB_T":                           shaping.ARAB_T,
	"ARAB_U":                           shaping.ARAB_U,
	"UIPC_Bottom":                      shaping.UIPC_Bottom,
	"UIPC_Bottom_And_Left":             shaping.UIPC_Bottom_And_Left,
	"UIPC_Bottom_And_Right":            shaping.UIPC_Bottom_And_Right,
	"UIPC_Left":                        shaping.UIPC_Left,
	"UIPC_Left_And_Right":              shaping.UIPC_Left_And_Right,
	"UIPC_Overstruck":                  shaping.UIPC_Overstruck,
	"UIPC_Right":                       shaping.UIPC_Right,
	"UIPC_Top":                         shaping.UIPC_Top,
	"UIPC_Top_And_Bottom":              shaping.UIPC_Top_And_Bottom,
	"UIPC_Top_And_Bottom_And_Left":     shaping.UIPC_Top_And_Bottom_And_Left,
	"UIPC_Top_And_Bottom_And_Right":    shaping.UIPC_Top_And_Bottom_And_Right,
	"UIPC_Top_And_Left":                shaping.UIPC_Top_And_Left,
	"UIPC_Top_And_Left_And_Right":      shaping.UIPC_Top_And_Left_And_Right,
	"UIPC_Top_And_Right":               shaping.UIPC_Top_And_Right,
	"UIPC_Visual_Order_Left":           shaping.UIPC_Visual_Order_Left,
	"UISC_Avagraha":                    shaping.UISC_Avagraha,
	"UISC_Bindu":                       shaping.UISC_Bindu,
	"UISC_Brahmi_Joining_Number":       shaping.UISC_Brahmi_Joining_Number,
	"UISC_Cantillation_Mark":           shaping.UISC_Cantillation_Mark,
	"UISC_Consonant":                   shaping.UISC_Consonant,
	"UISC_Consonant_Dead":              shaping.UISC_Consonant_Dead,
	"UISC_Consonant_Final":             shaping.UISC_Consonant_Final,
	"UISC_Consonant_Head_Letter":       shaping.UISC_Consonant_Head_Letter,
	"UISC_Consonant_Initial_Postfixed": shaping.UISC_Consonant_Initial_Postfixed,
	"UISC_Consonant_Killer":            shaping.UISC_Consonant_Killer,
	"UISC_Consonant_Medial":            shaping.UISC_Consonant_Medial,
	"UISC_Consonant_Placeholder":       shaping.UISC_Consonant_Placeholder,
	"UISC_Consonant_Preceding_Repha":   shaping.UISC_Consonant_Preceding_Repha,
	"UISC_Consonant_Prefixed":          shaping.UISC_Consonant_Prefixed,
	"UISC_Consonant_Subjoined":         shaping.UISC_Consonant_Subjoined,
	"UISC_Consonant_Succeeding_Repha":  shaping.UISC_Consonant_Succeeding_Repha,
	"UISC_Consonant_With_Stacker":      shaping.UISC_Consonant_With_Stacker,
	"UISC_Gemination_Mark":             shaping.UISC_Gemination_Mark,
	"UISC_Invisible_Stacker":           shaping.UISC_Invisible_Stacker,
	"UISC_Joiner":                      shaping.UISC_Joiner,
	"UISC_Modifying_Letter":            shaping.UISC_Modifying_Letter,
	"UISC_Non_Joiner":                  shaping.UISC_Non_Joiner,
	"UISC_Nukta":                       shaping.UISC_Nukta,
	"UISC_Number":                      shaping.UISC_Number,
	"UISC_Number_Joiner":               shaping.UISC_Number_Joiner,
	"UISC_Pure_Killer":                 shaping.UISC_Pure_Killer,
	"UISC_Register_Shifter":            shaping.UISC_Register_Shifter,
	"UISC_Syllable_Modifier":           shaping.UISC_Syllable_Modifier,
	"UISC_Tone_Letter":                 shaping.UISC_Tone_Letter,
	"UISC_Tone_Mark":                   shaping.UISC_Tone_Mark,
	"UISC_Virama":                      shaping.UISC_Virama,
	"UISC_Visarga":                     shaping.UISC_Visarga,
	"UISC_Vowel":                       shaping.UISC_Vowel,
	"UISC_Vowel_Dependent":             shaping.UISC_Vowel_Dependent,
	"UISC_Vowel_Independent":           shaping.UISC_Vowel_Independent,
}
