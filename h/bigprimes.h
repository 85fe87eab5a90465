// fixed primes of the sizes real keys have (made with openssl prime -generate)
static const char *const BIGPRIMES[] = {
"E23BDD693FE119367160732EFAC1891211CBF7264059EEADB09C04A1669CE76DE36C714292A40063D6548FAC439CDD540CBFBC1288358B37BE79A52E123E0C7A80E43B4F7AB65EB15B5E3788F16C4BEDB061F05C81C6DCCE8CB93F67639B870D",
"C99B7DC11CDD74C08370CBE1C0EF7E17314B9ECFBB3C80D305E65A804E9746DC0427C0AFE9A4A282FCE92182839717443ADD0F2D05D2FD3C4819BDB758FF32DF4E8914EC84E16C271CA301C904121CBAF5B75A0017479B798443E0D936A51A267C38321B47CCC3657A0952DD91EFF1F4D487AC59D7BD9EAF6DFE5BD3885C5BCB",
"CFBB5F5D59DA22A993615BBD5768B73A60953C1D724015B038DE49259D2424A84E900FE7F7F57B48A324E9AEF02FF47C1B65EFD64003393A4007A6757C80AFF8301095D344FD63E0D5F6BAC06F57D37E7BD075CD2BADB809C6353814365706CF0D9634F9DDDAE4EDA349B6712157EE002FAE6025A9BE08154173292CEFFED5BF",
"CE91C3F84042B6708B489151FA9A42052054C95B110C1D5EAC9A5471A4B5259778E96C77DF74D3D90E2AD440D1381112D7F0CFDA46E3D8CD9FCDA30FC160C98347093EBCA970CE8A90270816D73C05DB2B26D0CF88B93F5396A817C9FB69E65B2998F096C2EA0726BC897B3AF9FFCA65247DD752DDC8BDE06333FFEE298DB0D7",
"E2C89B352D724710FE9B947AE1635277E518DCE92D7E5CB269505DFD23E86FC1BFC51FECC9CB55B03E9E84A2F69407F330CBE9BE06CE42264FC35A5D2017D57957A254FB363AD964AC0A5CE5F59E2CC79C47D067CF6F5C5DB46FF030CB96CCA8572EB25B54C90D1ED787302F0D68E95B14B99EFB2FDFF03720103385A3DB7DDB",
"01E0FC0897DEFDDB20318E63AC81F926A7A236EDB478FB12B0D4731A0DC32DCE8ACD00A14EAAB61CD9C92ED01D35738F6A6FC685E56A304D43580EFB79804440A187D3F13C7D7533B6FB770F1CE39B4E6C8C3DF0F85501989DC67D327BC344E755AC002346BB92A1E719C039F76F0CB6A5B94FB2C084E92990CF17081D1213D967",
"E3D3769764C14339AC26F7D31BEB73FB931AB18742F9A4BD88A5A5B5F3878E79700E5233598D04BB5D525EEB8B8ADC97BE96ACC3F07E9E364BB7BFFDAB1CBCFB6C3DE1035060C2B0EE3C4C15DA73032320D6CC807180DB3EED17015A719A5EE543165062DF1C14F334254B79157AD3B8F326FDA1BB97EA00558216B8A278A805D04FC84B",
"CBE352C4F9D5D8F81746FF4B9FD856DD73BDE723B2EDA71CEA49A53626FB02F2AC55797CFA18BD65363E7D55ED312614AB9A704BFB1155D56B8BBE925025679FA49A58D3EC0C3904A4AD9E996981E02FD85772E0348274E49A0D6A0075E0160B6F24F697AE436E034311FBC863375D8BA32F794208C0AD4B5F9E07685FCDE509E4D6C80DA7C8BFD48C1B204907CC437ED8B76E578DACE2A41516E6871AA32E42F43351388A0CCEAE11B3697A5DD1D0480F55C48FF03B8CF0CADB83E3AE61E12F",
"DEC5B967C19FCEE33245D3F0EA6C4F18B2B3F1607642F7D9C6DAEBF0E81A14A589C6D554985EB12ADCDEFF76307212BFF910280D448BE7C1A868E5A95E1EEA4BCE7EC6A9FAA285D5C1CFBE69B9E534A446F603C4F7A9084B5B4BDE4A0409C6F08978944CFA358B8425D3EC211E249F1350F9221491C6DB490242AE87DC1D28DA50553210016A32EE73F88315C3BB20FFE72224632CE8374B62B5B8971BBD9F0876FBCC560F317D906CBAB0F4BC7B4D029E006282C871056046613651A7A0F031",
"D50512D27B07411EEEC1DBA2657AEEC47E3BDBB3C8D92DCF46998BD6378D09ECDDD98CA43AD39A832CBC7B74428F732EE70B553F2A9C1BBD46DA1F7C0F8BDF21D12E81F89AADC93415A61E1952C39904F88FD51AEBCA0D8FDE6F3D8D4B9C2E272BA2F39AACB5589FFBE0501877C8863E8781ECE5A65DB04B05ECC806E2FABE4434CFA255581AC94A63794D73636EA2676F49AEF999312A2A123D88691723B5B80CF7B9E8D411F2D506E412616710478CC1B808FA8C7E50AF295CEEFF575175543B82DD0E5C17C92D22EF259C642CECC7E8EE449091E875DE9346E6963BB6BEB40BFD9DAD59F19AFB79E873B2A3AB9057834ADB2C0F013F74A3954AC65EE24809",
"F097C9B13A8B77760427EC414CA60D76FE5FC50DEED15EFED1B12A2437E73A4E91D33DF33B500FC693F01F2943A9E695A889ECFF471F9809D466AE4CEB37AA5E9A4D66CD6428DE452502ABBD0895A317CCD39FF31FC1C7AEBE1206FDCD84F0343AC178B047C2EE7B719BB56E96AD3BE62A771D78C7285B9A23FB4847590E24CE43CADCB293C42F136901AD485AD88AB81FF0FFBFCD0B66CEF62146CDB0AD8B7417677C221A73D1F57D97BE5DE1DB81344D06FC6A09F63329D667D58F5870F93DD32BE9534054D844B9A4D3C30D84F0FE2AECAE2066157212EF691B35AC5D424CFE86C2A5B4D0C06ACD2D5CD8C8635A8CB650AFE59F85A2F646A0275F2FDB628F",
"01C31B1997EC83561464EDEDB0E0726B23CD8A56EE55264AE19EC83087FCE1D332B71D2ED668C3D37A297F26138CBDB14C79984D68B8E3F4C1C74FEC53337FFD0B4E2EAB75D0567C90F47A2059171B7F8A8CA7DFA808AFA256399917C2EA84DA7A00EDC6BA09B56A6D3059678A5FF204095D130615434682C0C907B7888AE3BDB0F23B5C6FDB51F0DAFB3A8C7D081DA4B1A7C5E02D464ADB07544CE694204C90B3D9DD16580391FA80891A4C16F68208AF5BF7BE0EB20267EEF10C1168D086163FA9726E94D9AB634BF2CA9BF1FB024DC6F9EB2C341B3060BAE92C43C648AD93217D4D0B564EC2E8D04A861570ADE40DDD3E017519E841DD61046253026B92759B",
};
static const int NBIGPRIMES = sizeof BIGPRIMES / sizeof *BIGPRIMES;
