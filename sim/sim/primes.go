package sim

// Safe primes handed out in place of the external openssl program.
var primes = map[int][]string{
	128: {
		"287455995240054463237684858959418207799",
		"316245814449410863868789514891107112899",
		"299828094601172662880949272292273122063",
		"258042481474067499985395363910679502239",
		"299104546582282157610968417299581574883",
		"323117542136711927173162052238241478207",
		"278738144749156667600854047467326786823",
		"339713068318551068601739432703531238227",
		"293269161555263994451575441518102204567",
		"319247790268179578654144552988932822879",
		"312993942290016883535455339328800537007",
		"289385673836019318672386916433678326143",
		"293588329368112786395169834343560139903",
		"328859559314806007395310820648225036359",
		"260884303154184949317367712500279610207",
		"289502858366161522390634136775313613647",
		"304671582410571792593423126264865654947",
		"278715163238571948769155378476601851219",
		"275514348843599530910550398560240834547",
		"312542242505492346031649440548748883279",
		"265795958542521138945359895280438059743",
		"279441069571503745016783458556977036139",
		"324876402893047191991142002442145535943",
		"310656597042990164932564767693033007523",
	},
	512: {
		"13331794986236692732583387420838645498037612028604175125102318622778022336441138314742124776146744635527126919637109961052455059592504047090082665522896867",
		"11771736372848537089743709242785867424405344807385549879319799630179065203094552499368908473034323378006431411276610548302909617564098205278354667020616547",
		"10344209427139524456395369613182425435308452576281114125955586756038963882964397301520531922809104753252847500791822981376429486516434136764616033443441167",
		"11986722866120746217930679144880418279713114407867734545602930333566955764510162739122995343750933565402348572205219172977011652735148803603860109607853627",
		"11273203586520727655459970258042591706468215808636157565974796050892591411311286441829916337868223337662040450253020742135295798078165587861818477064062959",
		"13137208554462655240515696207251895130262204131336653757888299704974114042152998986910146714394170408510255269260013725948370411253025573415044058223530623",
	},
}
