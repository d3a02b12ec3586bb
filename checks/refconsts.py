"""Reference digits, computed independently of the repository: pi, e, Euler-Mascheroni, golden ratio, zeta(n), percolation thresholds 1-2sin(pi/18) and
2sin(pi/18) (170 digits, mpmath formulas); feig 0 is the first zero of the Feigenbaum function (confirmed to 52 digits by solving the functional equation),
feig 1-3 are the published digits as given in the original sources of the repository."""
REF = {
    'pi': '3.1415926535897932384626433832795028841971693993751058209749445923078164062862089986280348253421170679821480865132823066470938446095505822317253594081284811174502841027019',
    'e': '2.7182818284590452353602874713526624977572470936999595749669676277240766303535475945713821785251664274274663919320030599218174135966290435729003342952605956307381323286279',
    'euler_masch': '0.57721566490153286060651209008240243104215933593992359880576723488486772677766467093694706329174674951463144724980708248096050401448654283622417399764492353625350033374294',
    'phi': '1.6180339887498948482045868343656381177203091798057628621354486227052604628189024497072072041893911374847540880753868917521266338622235369317931800607667263544333890865959',
    'apery': '1.2020569031595942853997381615114499907649862923404988817922715553418382057863130901864558736093352581461991577952607194184919959986732832137763968372079001614539417829494',
    'zeta 2': '1.6449340668482264364724151666460251892189499012067984377355582293700074704032008738336289006197587053040043189623371906796287246870050077879351029463308662768317333093678',
    'zeta 3': '1.2020569031595942853997381615114499907649862923404988817922715553418382057863130901864558736093352581461991577952607194184919959986732832137763968372079001614539417829494',
    'zeta 4': '1.0823232337111381915160036965411679027747509519187269076829762154441206161869688465569096359416999172329908139080427424145840715745700453492820035147162192070877834809108',
    'zeta 5': '1.0369277551433699263313654864570341680570809195019128119741926779038035897862814845600431065571333363796203414665566090428009617791559708418351107218008764486628633718035',
    'zeta 6': '1.0173430619844491397145179297909205279018174900328535618424086640043321829019578978827739779385351705302791911622545588673981814483331018537929163380726567317525304096536',
    'zeta 7': '1.0083492773819228268397975498497967595998635605652387064172831365716014783173557353460969689138513239689614536514910748872867774198403354403157983010339845621210694635852',
    'zeta 8': '1.0040773561979443393786852385086524652589607906498500203291102026525829525747488143952872303723719711245236484702826900263542995480733839709662705817996046189927542222873',
    'zeta 9': '1.0020083928260822144178527692324120604856058513948887565485966159097850533902583989503930691271695861574086047658470602614253739707224301530691324987642510909294868767655',
    'zeta 10': '1.0009945751278180853371459589003190170060195315644775172577889946362914651519129543970419686103856527540068920632053076773680902035362938073190695949842873953621603334722',
    'zeta 11': '1.0004941886041194645587022825264699364686064357582086171191414361000540597982198147025918430235606298355060729481412986032997979400447244829145234059466610182786474368049',
    'zeta 12': '1.0002460865533080482986379980477396709604160884580034045330409521332520196819409130490428085519006994745429809452663142695012493178702787490880473676262398742673400111968',
    'zeta 13': '1.0001227133475784891467518365263573957142751058955098451367026716208967268298442098128927139532681355390234484052117973406407648522438051093909672968392968499606677161057',
    'zeta 14': '1.0000612481350587048292585451051353337474816961691545494827552022528629410231774208766597829719984675128804906172087285080543161655047327583754121050189970481591055615676',
    'zeta 15': '1.0000305882363070204935517285106450625876279487068581775065699328933322671563422795730723343470175484943669684442492832530297757588781904321794404770003433234833231074276',
    'zeta 16': '1.0000152822594086518717325714876367220232373889904715311531052035887870870279531517862856048463224623462712187572789564380958405771030512787278924224408794242543715977424',
    'zeta 17': '1.0000076371976378997622736002935630292130882490902626790953798439729356432902824593420817386369166712096026615971011037260139196197159769468248868775038126940940489553894',
    'zeta 18': '1.0000038172932649998398564616446219397304546972189533311431744299876300395426500456380019686689896495493092104923169617616619209933609075818394336212589471996585678241789',
    'zeta 19': '1.000001908212716553938925656957795101353258571144838630235933046761823949705341309312664227118076302706716482559666184560975853424530398074308087916612539453037312942192',
    'zeta 20': '1.0000009539620338727961131520386834493459437941874105957500564898511375137311439002578360979763874789548515880868154509894190626699457757147736860163163218323750292034577',
    'percolation 0': '0.65270364466613930229656674646137040799924864563186122552751724373586835572197052915696677368520085197608170720656283791444945393174409400045181073057675488021671789976777',
    'percolation 1': '0.34729635533386069770343325353862959200075135436813877447248275626413164427802947084303322631479914802391829279343716208555054606825590599954818926942324511978328210023223',
    'feig 0': '0.832367236905316424849095446276104487378444151012251178801815537790651149061721299210574967325072848966217',
    'feig 1': '1.83125898493713148534217339787378162744129809037623796547741164647029628921518197466402695607431535931144',
    'feig 2': '2.8315090047407180144993675864514825103861092055443549309368086842363044614290970217463629831538000035030',
    'feig 3': '1.5546180470640874386344153591097097603679027104799317816179366813305881904302037128542124779889011575139',
}
