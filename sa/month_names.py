"""The names of the months in the languages of the inline transformation registry: [January, ..., December], each name as the
registry writes it, in small letters. What a table of brel says about one of these names is compared with this list."""
MONTHS = {
    None: '01 1 | 02 2 | 03 3 | 04 4 | 05 5 | 06 6 | 07 7 | 08 8 | 09 9 | 10 | 11 | 12',
    'roman': 'i | ii | iii | iv | v | vi | vii | viii | ix | x | xi | xii',
    'bg': 'ян | фев | мар | апр | май маи | юни | юли | авг | сеп | окт | ное | дек',
    'cs': 'leden ledna lednu led | únor unor února unora únoru unoru úno uno | březen brezen března brezna březnu breznu bře bre | duben dubna dubnu dub | květen kveten května kvetna květnu kvetnu kvě kve | červen cerven června cervna červnu cervnu čvn cvn | červenec cervenec července cervence červenci cervenci čvc cvc | srpen srpna srpnu srp | září zari zář zar | říjen rijen října rijna říjnu rijnu říj rij | listopad listopadu lis | prosinec prosince prosinci pro',
    'cy': 'ion | chwe | maw faw | ebr | mai fai | meh feh | gor ngor | aws | med fed fedi | hyd | tach dach nhach thach | rhag rag',
    'da': 'jan | feb | mar | apr | maj | jun | jul | aug | sep | okt | nov | dec',
    'de': 'jan jän jaen | feb | mär maer mar | apr | mai | jun | jul | aug | sep | okt | nov | dez',
    'el': 'ιαν ίαν iαν | φεβ | μάρ μαρ | απρ άπρ αρίλ άρίλ αριλ άριλ aπρ aρίλ aριλ | μαΐ μαι μάι μαϊ μάϊ μαΐ | ιούν ίούν ίουν ιουν iουν iούν | ιούλ ίούλ ίουλ ίουλ ιουλ iουλ iούλ | αύγ αυγ | σεπ | οκτ όκτ oκτ | νοέ νοε | δεκ',
    'en': 'january jan | february feb | march mar | april apr | may | june jun | july jul | august aug | september sep | october oct | november nov | december dec',
    'es': 'ene | feb | mar | abr | may | jun | jul | ago | sep | oct | nov | dic',
    'et': 'jaan | veebr | märts marts | apr | mai | juuni | juuli | aug | sept | okt | nov | dets',
    'fi': 'tam | hel | maa | huh | tou | kes | hei | elo | syy | lok | mar | jou',
    'fr': 'janv | févr fevr | mars | avr | mai | juin | juil | août aout | sept | oct | nov | déc dec',
    'hi': 'जनवरी cait chait चैत्र | फरवरी vai वैशाख बैसाख | मार्च jy ज्येष्ठ | अप्रैल dha ḍha आषाढ आषाढ़ | मई vana śrāvaṇa श्रावण सावन | जून bhadra proṣṭhapada भाद्रपद भादो | जुलाई in आश्विन | अगस्त karti kartik कार्तिक | सितंबर mrga marga agra मार्गशीर्ष अगहन | अक्टूबर pau पौष | नवंबर mgh magha माघ | दिसंबर phlg phalg फाल्गुन',
    'hr': 'sij | velj | ožu ozu | tra | svi | lip | srp | kol | ruj | lis | stu | pro',
    'it': 'gen | feb | mar | apr | mag | giu | lug | ago | set | ott | nov | dic',
    'nl': 'jan | feb | maa mrt | apr | mei | jun | jul | aug | sep | okt | nov | dec',
    'hu': 'jan | feb | márc marc | ápr apr | máj maj | jún jun | júl jul | aug | szept | okt | nov | dec',
    'lt': 'sau | vas | kov | bal | geg | bir | lie | rugp rgp | rugs rgs | spa spl | lap | gru grd',
    'lv': 'janv | febr | marts | apr | maijs | jūn jun | jūl jul | aug | sept | okt | nov | dec',
    'no': 'jan | feb | mar | apr | mai | jun | jul | aug | sep | okt | nov | des',
    'pl': 'sty | lut | mar | kwi | maj | cze | lip | sie | wrz | paź paz | lis | gru',
    'pt': 'jan | fev | mar | abr | mai | jun | jul | ago | set | out | nov | dez',
    'ro': 'ian | feb | mar | apr | mai | iun | iul | aug | sep | oct | noi nov | dec',
    'sk': 'jan | feb | mar | apr | máj maj | jún jun | júl jul | aug | sep | okt | nov | dec',
    'sl': 'jan | feb | mar | apr | maj | jun | jul | avg | sep | okt | nov | dec',
    'sv': 'jan | feb | mar | apr | maj | jun | jul | aug | sep | okt | nov | dec',
}
