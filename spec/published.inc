// the published tables, as bit patterns (tools/mkpublished.py)
closed spec fn pub_raw_0() -> Seq<u64> { seq![4622382067542392832u64,4622785702658995913u64,4623061548136172356u64,4623389522779035612u64,4623670209625811478u64,4623969811591022300u64,4624283262125087287u64,4624596825249142958u64,4624926713921847847u64,4625242134780749808u64,4625414172286515361u64,4625608784085413108u64,4625770913671998446u64,4625950213232163134u64,4626141616216326380u64,4626335496180284680u64,4626546095757859593u64,4626740876441743367u64,4626960708398554389u64,4627165622181599746u64,4627382751978634346u64,4627580685182257280u64,4627832492696422633u64,4628033071764826646u64,4628232918998291212u64,4628507019330612049u64,4628710019083815774u64,4628977870671653634u64,4629219826561634114u64,4629437631898612820u64,4629700304346879204u64,4629812387682605387u64,4629916674161476685u64,4630064842589217174u64,4630203384572754159u64,4630301337864649467u64,4630455923921858960u64,4630552497986368386u64,4630718540075130002u64,4630827836808586750u64,4630938428326936366u64,4631097912048740624u64,4631230289730287645u64,4631338010203874814u64,4631462365848585581u64,4631638794363987821u64,4631766049200958708u64,4631898370587510388u64,4632021009234863220u64,4632139453905063064u64,4632268960541847637u64,4632444741664803442u64,4632568984719523525u64,4632699223191247546u64,4632852711496047867u64,4633019541714744272u64,4633171256727191316u64,4633249450475721536u64,4633409046787516478u64,4633511616269029841u64,4633661923906593332u64,4633787095828736560u64,4633973178935839975u64,4634036229330623162u64,4634200413684538488u64,4634268333596418769u64,4634329343297620804u64,4634427831391971862u64,4634489671444355193u64,4634544924982283495u64,4634611648625512756u64,4634684269169504105u64,4634755172716137520u64,4634827469563905652u64,4634881287579452729u64,4634957060643183238u64,4635005727666656510u64,4635095644847966729u64,4635135656515906149u64] }
closed spec fn pub_raw_1() -> Seq<u64> { seq![4627167142146473984u64,4627200750258693236u64,4627398176807358090u64,4627513863022786170u64,4627665352855251845u64,4627798659404222012u64,4627948910746790160u64,4628091731149973147u64,4628243052097452795u64,4628398369989601735u64,4628555827091573676u64,4628716098943312724u64,4628869896870587426u64,4629033096062084265u64,4629197252268501919u64,4629362084014863679u64,4629522243276612043u64,4629692760817503358u64,4629784071299948295u64,4629871694460198322u64,4629959908717899442u64,4630033908489276673u64,4630136083905822641u64,4630221764888733365u64,4630308965836518326u64,4630413505642868664u64,4630498370348346927u64,4630596126607758538u64,4630692475492286595u64,4630782941549801400u64,4630884666606384631u64,4630978594806112977u64,4631063740986567950u64,4631183761916637374u64,4631283178878411578u64,4631369141336299012u64,4631482237981941354u64,4631588663670635653u64,4631688305812391225u64,4631800529885605763u64,4631907237049276773u64,4632015126407849968u64,4632141564967388394u64,4632227977785238566u64,4632341158873373920u64,4632455719188895157u64,4632561750812622062u64,4632682644315119288u64,4632792081786064391u64,4632903095516879074u64,4633012167070354453u64,4633140632249725197u64,4633271039606435244u64,4633356410966871586u64,4633495037392901584u64,4633624121817221091u64,4633747323414527345u64,4633848232193678115u64,4633951758690112294u64,4634077690594692642u64,4634188648030511982u64,4634255653148717954u64,4634328766273918547u64,4634389015992683463u64,4634444185088118751u64,4634508473972799465u64,4634566584481741380u64,4634644820451518107u64,4634709306368682518u64,4634770949388582152u64,4634831649467309805u64,4634890801433665549u64,4634932445656469891u64,4635018900695566569u64,4635079305225568675u64,4635153403513187756u64,4635199903179340356u64,4635272861493303758u64,4635318755988256430u64,4635391826892210517u64,4635459226075383883u64,4635503713195453003u64,4635594897014158420u64,4635634683502116471u64,4635723376267277998u64,4635794434625148604u64,4635871868391241705u64,4635932146257504292u64,4635987118320455883u64,4636058542595796212u64,4636138537784177381u64,4636196014974421697u64,4636269705123324546u64,4636313291523468191u64,4636399887300053225u64,4636436605710765130u64,4636535487870083583u64,4636624307298984631u64,4636649949669362971u64,4636754320590727283u64,4636821128676449557u64,4636895888430263907u64,4636939784452881934u64,4636992673601005866u64,4637102730316899733u64,4637153536550196006u64,4637235980570874557u64,4637277216654962668u64,4637350512738898123u64,4637462891623349853u64,4637502312193838180u64,4637528587882914120u64,4637637363887663953u64,4637701793509833022u64,4637767208294420578u64,4637845345747955456u64,4637875773192937878u64,4637986083236310784u64,4638038381286983624u64,4638117686861671852u64,4638180427633980657u64,4638269908529076974u64,4638348932628788491u64,4638386917676895594u64,4638488445700995128u64,4638546119923723141u64,4638599614243047001u64,4638719804058102451u64,4638719797021228034u64,4638779385273797680u64,4638814372613402814u64,4638813317082240149u64,4638865122551703745u64,4638901517266192433u64,4638944238130782693u64,4638968860154370458u64,4639007288525565880u64,4639061472458582681u64,4639083012331175464u64,4639107704723507406u64,4639160080179798842u64,4639181176729303305u64,4639219689542991741u64,4639249476632402146u64,4639296511101010497u64,4639346684015609171u64,4639372579713466552u64,4639397405806412431u64,4639408854801090137u64,4639452244168750085u64,4639490355880596708u64,4639537531086693414u64,4639559415766132667u64,4639611967144284547u64,4639647552618215191u64,4639685988026285031u64,4639725246748661750u64,4639729271840828713u64,4639783737248822224u64] }
closed spec fn pub_raw_2() -> Seq<u64> { seq![4631670741773844480u64,4631697510044129663u64,4631849619121544102u64,4631929107654967191u64,4632066805213574044u64,4632133120718087075u64,4632278305511074431u64,4632424250286498906u64,4632500023350229415u64,4632647966597988536u64,4632720587141979885u64,4632870697747059678u64,4633025311951766841u64,4633100268738064889u64,4633258570264966962u64,4633336651423506498u64,4633495206277887610u64,4633651481184957366u64,4633740173950118894u64,4633894056319886610u64,4633989701516972891u64,4634155659163241493u64,4634259903420866285u64,4634309597828004551u64,4634393027011101590u64,4634435600101329076u64,4634525404692648611u64,4634616067782647113u64,4634661286737655680u64,4634754328291207388u64,4634796887307686039u64,4634891828817330543u64,4634983603733487052u64,4635036788430336531u64,4635120879079628839u64,4635175794847585088u64,4635265135005193051u64,4635370251835245645u64,4635413500465417237u64,4635510398226149881u64,4635561443713176358u64,4635659129603843791u64,4635705347795019681u64,4635815080814690330u64,4635918987302343069u64,4635969230585685921u64,4636068717916204302u64,4636122873701723433u64,4636222501769730169u64,4636330799267019594u64,4636383561751404007u64,4636479432128471656u64,4636542271417022310u64,4636647655648302780u64,4636760400450224233u64,4636815034743203771u64,4636919982688270339u64,4636973462933845364u64,4637098085979784007u64,4637188946102266207u64,4637264873977233906u64,4637376394363006668u64,4637430845697251344u64,4637545124537795871u64,4637672027531045870u64,4637723917443002479u64,4637837647407342420u64,4637899600049716435u64,4638007981989498873u64,4638126905167159126u64,4638174713691953431u64,4638294734622022854u64,4638372463936841502u64,4638516128764954621u64,4638614560564310337u64,4638693021714068432u64,4638749668553131452u64,4638776450897165471u64,4638835877301623508u64,4638914148455772324u64,4638937820501313690u64,4638996128042739302u64,4639025309960949780u64,4639081548661296569u64,4639118506325738678u64,4639192879051460051u64,4639247752598169793u64,4639280530359207749u64,4639342321153470156u64,4639378751052330933u64,4639428586196957554u64,4639511543909468602u64,4639541345072627843u64,4639606239128508485u64,4639624978325082997u64,4639705846085891968u64,4639753352025086309u64,4639788930462142536u64,4639848321682228485u64,4639883421611824303u64,4639972226966976515u64,4640019191066840688u64,4640059083107915006u64,4640119593191033379u64,4640142047857300472u64,4640217933511021665u64,4640279752452781742u64,4640317308251549362u64,4640386121846480699u64,4640410138698868536u64,4640502673597462164u64,4640553099839539878u64,4640605003825245323u64,4640657435576532101u64,4640692415879262817u64,4640749470857042067u64,4640836706989199118u64,4640873439473659858u64,4640945370403958266u64,4640974094925331589u64,4641022902686293216u64,4641064863568446358u64,4641151339718166289u64,4641202005213974207u64,4641249145235698824u64,4641322117623411062u64,4641351890639072631u64,4641412738492163057u64,4641474895203895188u64,4641475824071318333u64,4641583073074319511u64,4641609454316511717u64,4641688534711218576u64,4641756743134949985u64,4641774553464101352u64,4641866926514583372u64,4641874230790229013u64,4641941242945309403u64,4642002984481450885u64,4642069792567173159u64,4642126256447501317u64,4642144714169099118u64,4642215941411955750u64,4642277077776897304u64,4642338565985559747u64,4642401116762259272u64,4642407794756081733u64,4642533107415713317u64,4642584842516432735u64,4642569009548992761u64,4642688186054132053u64,4642729358806350404u64,4642795857269598296u64,4642835214508216864u64,4642890299161159139u64,4642969161412759047u64,4642994937483751326u64,4643094375556148783u64,4643135815709595009u64,4643156630784122762u64,4643232963279369483u64,4643245580395200538u64,4643282087699679910u64,4643291492482339255u64,4643328432554595320u64,4643364672457846817u64,4643382855741342325u64,4643409244020408949u64,4643407586836483565u64,4643468413578950738u64,4643507144535746124u64,4643514093449233669u64,4643549084307276012u64,4643566933339236676u64,4643604798760478677u64,4643639311111060613u64,4643667353055615412u64,4643703318520764616u64,4643707181764819970u64,4643747552313354695u64,4643766900199566344u64,4643805954852584948u64,4643829063948172893u64,4643858062907648508u64,4643895038164276661u64,4643926602064477553u64,4643934574843192882u64,4643974737803932284u64,4643996446561511093u64,4644022838359014926u64,4644058729936982743u64,4644093650426280909u64,4644114507722055169u64,4644135182059094567u64,4644150874289046186u64,4644175886859164136u64,4644231006696478500u64,4644263879455321096u64,4644280461849886563u64,4644319273730737753u64] }
closed spec fn pub_raw_3() -> Seq<u64> { seq![4636174341401214976u64,4636279430083769899u64,4636383744710138869u64,4636488003041512496u64,4636594569467695150u64,4636701783286324239u64,4636844969606976949u64,4636953717464229111u64,4637063619368885787u64,4637172043529914732u64,4637285379429287277u64,4637437615170441236u64,4637553005837143769u64,4637669902394971705u64,4637786390814083410u64,4637904976221771609u64,4638070596098068159u64,4638192488836732708u64,4638316323752736562u64,4638441453453633284u64,4638565246148390630u64,4638722442886009114u64,4638786879545052601u64,4638848712560561514u64,4638914000681409551u64,4638979513982238956u64,4639070170035363040u64,4639134458920043754u64,4639203469547458789u64,4639270678735022876u64,4639337740148224190u64,4639433490898426737u64,4639500298984149012u64,4639572293246317180u64,4639645307855275924u64,4639716070664420983u64,4639817753499757707u64,4639881803130708217u64,4639960777972298809u64,4640029683046597578u64,4640107503840783657u64,4640179885131044802u64,4640283833839944047u64,4640356376978316801u64,4640439102473972063u64,4640514565915228189u64,4640588136437265937u64,4640698636476248123u64,4640772291440778884u64,4640856762081289752u64,4640925139390007188u64,4641015879885624286u64,4641115761281110062u64,4641196115350086536u64,4641274562426095796u64,4641351616200970338u64,4641432167302430510u64,4641549077934007281u64,4641639832503373215u64,4641725766813762978u64,4641796902577252178u64,4641897290627696034u64,4642002787448967188u64,4642085175174650397u64,4642172284643067927u64,4642266670239633428u64,4642353061946860346u64,4642458115445043180u64,4642544880106614240u64,4642633340654919981u64,4642735797546442660u64,4642807454038638776u64,4642937291408520983u64,4643025583071840698u64,4643101166139961927u64,4643194320283504319u64,4643247128507572447u64,4643315730996271251u64,4643367870717269692u64,4643402442881284178u64,4643447485914432301u64,4643493183376901276u64,4643536157568970575u64,4643604753020794962u64,4643652118222500948u64,4643694416874626141u64,4643748713397633627u64,4643799414077813634u64,4643866637339126556u64,4643902138370564188u64,4643953813657851055u64,4643998416886348068u64,4644058202171401411u64,4644113568299320397u64,4644156802855743154u64,4644206103197914025u64,4644266377545739403u64,4644305629231241704u64,4644375526504833378u64,4644413631179805583u64,4644465978488599347u64,4644524673058117937u64,4644564107702355100u64,4644640658340708771u64,4644687274115289265u64,4644745518324845117u64,4644781958779017521u64,4644831128939011663u64,4644911965033885755u64,4644958137485377929u64,4644990471923327566u64,4645052378826017866u64,4645096626692356781u64,4645156739192070550u64,4645215912269049548u64,4645270958219182526u64,4645320905953799832u64,4645374882299021309u64,4645440722814511140u64,4645506183338782412u64,4645535382849178934u64,4645590091029339859u64,4645640482087045484u64,4645686577132919063u64,4645764820139570207u64,4645818117426410370u64,4645861253466591278u64,4645914821673096525u64,4645969311710150499u64,4646036658116765732u64,4646069798276836203u64,4646133823278726250u64,4646176160633660742u64,4646240569145206558u64,4646311152514053964u64,4646350544937044620u64,4646422285871733749u64,4646464222124826427u64,4646519334925266374u64,4646584397866133042u64,4646639095490982340u64,4646690929107943608u64,4646743476967658278u64,4646780438150537596u64,4646870189965298998u64,4646914483571321628u64,4646956810370944493u64,4647022766994862218u64,4647072141224214476u64,4647126919773119578u64,4647174805703532478u64,4647244643163691601u64,4647304731034344908u64,4647333575182583333u64,4647435205241361924u64,4647463085337805115u64,4647523718566225799u64,4647583440519409382u64,4647624827896297475u64,4647685478716904204u64,4647727580336545700u64,4647751574319091679u64,4647789065026770934u64,4647808112086601223u64,4647839429696197493u64,4647862408609608709u64,4647902867119073657u64,4647926511017117352u64,4647947560067719496u64,4647986716755417157u64,4648011173412456104u64,4648031075452528152u64,4648070995641100141u64,4648095441742827461u64,4648113586323513672u64,4648158569543229243u64,4648173983816641361u64,4648216841900282767u64,4648234641674122507u64,4648267706187792987u64,4648297992895287054u64,4648325343466930307u64,4648347873779597391u64,4648364053313102440u64,4648397856698586785u64,4648441370970767648u64,4648453317824310411u64,4648489469766631686u64,4648518143270665480u64,4648561013668837117u64,4648576508866305039u64,4648602024572943860u64,4648624595347638845u64,4648671649167651845u64,4648675982123074585u64,4648716377300669773u64,4648745770325112783u64,4648781069046410904u64,4648792472301404894u64,4648828490543112231u64] }
closed spec fn pub_raw_4() -> Seq<u64> { seq![4640685512705458989u64,4640792128389762567u64,4640896421905508283u64,4641018005021698451u64,4641122361869313927u64,4641229709388556953u64,4641355205006923399u64,4641463593983580255u64,4641592868403509042u64,4641705585057932824u64,4641820067967835465u64,4641954078204247409u64,4642068350007917517u64,4642206392373370841u64,4642324682232333494u64,4642442908759426387u64,4642583836243390995u64,4642704821225255653u64,4642848626790857127u64,4642974298331084017u64,4643099428031980739u64,4643229567987462911u64,4643293589470915749u64,4643368602552209139u64,4643433348833727008u64,4643497310503747296u64,4643577794754900499u64,4643640524971897677u64,4643719552590046403u64,4643789157833349739u64,4643857971428281077u64,4643938744191285409u64,4644009119972337490u64,4644086472814374787u64,4644159948338607895u64,4644229722466897258u64,4644316353427854380u64,4644385789786171690u64,4644465503499576148u64,4644542395426339081u64,4644617651279799884u64,4644706104791231208u64,4644779861790441026u64,4644853400646543894u64,4644940576965268393u64,4645021296951714592u64,4645113177420987367u64,4645189713985592204u64,4645269051226215311u64,4645364661238929503u64,4645438425275013739u64,4645530622403635315u64,4645613752519569598u64,4645694620280378570u64,4645789220501613812u64,4645874940187333834u64,4645965075511751003u64,4646049876885359506u64,4646133921794968099u64,4646228029434994098u64,4646314333181290794u64,4646404331286656818u64,4646492316845939360u64,4646578068197594261u64,4646683030216409665u64,4646766012557981175u64,4646865721550043716u64,4646960511766888238u64,4647036685932460560u64,4647146587837117235u64,4647233563604920828u64,4647346290814656237u64,4647425906011818846u64,4647519661808123956u64,4647616862154456564u64,4647716280875449372u64,4647762613415834550u64,4647808620500777907u64,4647851061649610061u64,4647905085493733858u64,4647946859898714928u64,4647998858882225013u64,4648053901313920782u64,4648102049367905744u64,4648161838171396296u64,4648195210548322553u64,4648246264831442053u64,4648305182821723406u64,4648345285969030257u64,4648406695012855500u64,4648451808414747800u64,4648502144936676688u64,4648555136119479678u64,4648602520672590312u64,4648662787983541273u64,4648702549842438862u64,4648760366561873835u64,4648807145943784541u64,4648864860628540457u64,4648921037756236091u64,4648972996277718273u64,4649016756840503758u64,4649074992253966588u64,4649118844296119504u64,4649176608238996344u64,4649231509933203757u64,4649274647732603270u64,4649328717316410783u64,4649390504592235980u64,4649439984374704505u64,4649487474480931406u64,4649547221063175451u64,4649601251944173666u64,4649656929453785639u64,4649712610481834820u64,4649762033969308002u64,4649819009782250052u64,4649865549910430555u64,4649919174411931143u64,4649975573201170937u64,4650030144162280715u64,4650084495221064938u64,4650140441891123390u64,4650196576797572517u64,4650236220788823609u64,4650297680849988380u64,4650351585067247075u64,4650421825388466615u64,4650464277092610395u64,4650500821340680461u64,4650580624774233745u64,4650631865534525315u64,4650687310827281501u64,4650727299625379063u64,4650787632027418388u64,4650846131323671885u64,4650897414305209962u64,4650954536133296180u64,4651006584374927190u64,4651061366442269501u64,4651119621207136980u64,4651175265291595468u64,4651233308950230414u64,4651280644245220124u64,4651335454460060107u64,4651391564737448772u64,4651456217780380605u64,4651514293104950431u64,4651549832839197360u64,4651612490928231757u64,4651674842913228980u64,4651733066012161579u64,4651793848774163641u64,4651847066896166604u64,4651908498809833705u64,4651956861488488409u64,4652010060259086723u64,4652072472057516497u64,4652128286786179616u64,4652186200262637833u64,4652230358408827922u64,4652252490258481100u64,4652277477319929286u64,4652312502482734416u64,4652338164204517405u64,4652369458944271817u64,4652389378576529909u64,4652429011132860072u64,4652450658317787726u64,4652477537418844989u64,4652505026089148691u64,4652532889473015140u64,4652563771676006810u64,4652584448651874114u64,4652620022690883830u64,4652644717722043679u64,4652672522172086878u64,4652702858137701869u64,4652724369862796981u64,4652761770850327409u64,4652787212669784844u64,4652808621480591596u64,4652845251930373279u64,4652879585720266863u64,4652885409613456867u64,4652923959370735996u64,4652952524682825617u64,4652979845347752595u64,4653012089185944103u64,4653038465150480495u64,4653075474711871436u64,4653103889610770376u64,4653109719661225496u64,4653153337727304021u64,4653174387657515467u64,4653209767302869392u64,4653232853528615479u64,4653259878644816911u64,4653285141023976692u64,4653320210167246933u64] }
closed spec fn pub_raw_5() -> Seq<u64> { seq![4645199132842000384u64,4645301684731327703u64,4645414552678551467u64,4645527575437012422u64,4645641512989147687u64,4645748051267832670u64,4645865493183427982u64,4645984796352306794u64,4646104461920218120u64,4646224451184352664u64,4646337526719371752u64,4646461224416324459u64,4646587800194914032u64,4646713900984480406u64,4646840219917153731u64,4646959526604469751u64,4647086879957682487u64,4647219503929834131u64,4647350674787418505u64,4647485916476853558u64,4647613523157545334u64,4647730769799875553u64,4647800202639755654u64,4647870882765626304u64,4647942108249264331u64,4648006550185963631u64,4648078563799536448u64,4648151048883695256u64,4648222249738272820u64,4648293489295659683u64,4648362647697437491u64,4648438100583381991u64,4648513532358703238u64,4648587094084647964u64,4648665513013159553u64,4648735887034993030u64,4648816591188471788u64,4648896148331420451u64,4648974102826220467u64,4649051870843848412u64,4649125534604472195u64,4649207681317206596u64,4649285123879392720u64,4649370314040312804u64,4649446159232006095u64,4649531076714042491u64,4649615749664692870u64,4649698126835064452u64,4649779786244245422u64,4649864024667900504u64,4649953894350308403u64,4650032636975043209u64,4650118476287628332u64,4650209301225738443u64,4650286632957152487u64,4650379150263560071u64,4650467580905149537u64,4650557767246906235u64,4650646375569574750u64,4650727238052727908u64,4650819468606502968u64,4650910692887236287u64,4651006058368564462u64,4651099384915530088u64,4651185503943873318u64,4651274636513685956u64,4651369875331274611u64,4651460851562184704u64,4651562201905205189u64,4651640919900879533u64,4651741028235565282u64,4651833879793507710u64,4651938210252844119u64,4652037447774320669u64,4652121804065622249u64,4652218494238559568u64,4652266986219781698u64,4652316667432780431u64,4652366565909276813u64,4652416255038759266u64,4652460444850884234u64,4652516061667454353u64,4652562864798816220u64,4652611972506549905u64,4652660165420609280u64,4652709848392826618u64,4652760029223909012u64,4652811800388609822u64,4652857917424715956u64,4652911257812411928u64,4652962931340480191u64,4653009603410056027u64,4653064285201937885u64,4653107764289746659u64,4653166934727897750u64,4653221145928802920u64,4653265691103085986u64,4653324232620585989u64,4653369550091836405u64,4653415017976277500u64,4653471722869554466u64,4653522420031297264u64,4653577850370695312u64,4653625730143843097u64,4653686374807184710u64,4653732753966862906u64,4653786247406577464u64,4653840145466571044u64,4653898802212889638u64,4653946450648790938u64,4653999504283854386u64,4654052060939662079u64,4654109263691804102u64,4654147473040283271u64,4654206551999066931u64,4654269222402631559u64,4654314580335909877u64,4654372310853633232u64,4654419713878539213u64,4654472995332411936u64,4654524127900759333u64,4654586220401012402u64,4654630404935481557u64,4654695057098804088u64,4654736368829292190u64,4654798281889247606u64,4654851073400738991u64,4654897362840268361u64,4654961773111032781u64,4655008994936422505u64,4655066458052917985u64,4655119825708502326u64,4655171325953538051u64,4655229802379949690u64,4655282135614994619u64,4655335100409518542u64,4655401901458366398u64,4655439576004389818u64,4655499263652810614u64,4655553575129176238u64,4655620399047865952u64,4655667884756046342u64,4655715167274477919u64,4655782389656181539u64,4655827342089571533u64,4655878824742421214u64,4655944126937018086u64,4655986596233347911u64,4656044549292224728u64,4656098995348813591u64,4656161944588527023u64,4656215932368669429u64,4656272791193574284u64,4656315076651559944u64,4656373798488966903u64,4656425782519118850u64,4656493139481045710u64,4656547627758881079u64,4656598234320865749u64,4656656190898179775u64,4656704513114806577u64,4656747073890503832u64,4656770211573394099u64,4656798119377530310u64,4656822517980355310u64,4656850901213319371u64,4656877952717799870u64,4656907394560559153u64,4656934798348565191u64,4656967958299844962u64,4656992541180818778u64,4657019104941941195u64,4657041997213836142u64,4657073972771190473u64,4657103148092331183u64,4657129555722802456u64,4657160269040808100u64,4657183198696098392u64,4657217546999545463u64,4657246622045225720u64,4657275461795417634u64,4657299943081517043u64,4657325275389616351u64,4657354269071436153u64,4657385842647339368u64,4657416019403670657u64,4657438599414263316u64,4657467905357385407u64,4657500101256869944u64,4657528725502782813u64,4657550043713831436u64,4657576905222702655u64,4657599794855769696u64,4657637238944155933u64,4657659554632153275u64,4657691785276205249u64,4657710371420761175u64,4657746008791640651u64,4657775764654920827u64,4657805479616368450u64,4657834210295006888u64] }
closed spec fn pub_raw_6() -> Seq<u64> { seq![4649703837258654469u64,4649812009851422979u64,4649923570699223643u64,4650032350222410685u64,4650146614989206376u64,4650257452798160614u64,4650375528032453526u64,4650494076496551032u64,4650609461885597752u64,4650729996507499672u64,4650847976743987944u64,4650971283894410464u64,4651097113764311754u64,4651217169878753267u64,4651345624502812384u64,4651469858761439445u64,4651599280955731005u64,4651731544288068737u64,4651857312585318872u64,4651994302938046739u64,4652122593954775643u64,4652238806176566451u64,4652307461441823388u64,4652374364525350303u64,4652444400777211727u64,4652513341035882584u64,4652582839846460352u64,4652655522842712159u64,4652726416713643249u64,4652799776129448464u64,4652871362252900401u64,4652945583685821792u64,4653019711000547846u64,4653094194557041299u64,4653169208517943991u64,4653244438862735029u64,4653323786658669763u64,4653400837794716398u64,4653478545119302491u64,4653557556024874474u64,4653634286103525799u64,4653716178609171857u64,4653790566288251368u64,4653873952370492598u64,4653959377387096375u64,4654039874832389112u64,4654122310056974641u64,4654201402766211731u64,4654286015903429558u64,4654371786606489108u64,4654454879778832699u64,4654540285444031827u64,4654623146399519631u64,4654710386050113890u64,4654798015367629033u64,4654886234023376663u64,4654973480710845340u64,4655058524856621256u64,4655149319888015091u64,4655238702266869560u64,4655327399430077599u64,4655413369804448753u64,4655500042107043080u64,4655594504229617874u64,4655687291576081239u64,4655779189637540060u64,4655868585210534062u64,4655960599380420775u64,4656057173444930201u64,4656151133310593427u64,4656245087898600840u64,4656339692517882593u64,4656436304405592015u64,4656524896015683787u64,4656625569939150864u64,4656719764660497783u64,4656770579689887079u64,4656817220093528035u64,4656867882510703395u64,4656915446504111682u64,4656964545415752345u64,4657014663794574282u64,4657060737729824607u64,4657110105362107099u64,4657158278924761825u64,4657209582577118505u64,4657258953288033554u64,4657307473416753355u64,4657361786652337583u64,4657410069286545785u64,4657460944569172283u64,4657514506178607763u64,4657562381113904385u64,4657616727774642097u64,4657665372807882814u64,4657719132769215945u64,4657766265314261493u64,4657821616049017691u64,4657871386542360599u64,4657921627626680195u64,4657973293678069390u64,4658024342683533076u64,4658076824572550080u64,4658128286994385810u64,4658187133296509033u64,4658233604375359311u64,4658286893305911103u64,4658335741089095981u64,4658393288208279824u64,4658443083770487846u64,4658499365131885792u64,4658545474691312858u64,4658603179260561798u64,4658654483352723128u64,4658708237156791144u64,4658763737425128718u64,4658817391393540932u64,4658867493499590777u64,4658925238091062968u64,4658977329433549786u64,4659031345361189863u64,4659082790190839549u64,4659137054168302853u64,4659191404347477774u64,4659245592238736435u64,4659302204773036668u64,4659349194821375256u64,4659412764185646753u64,4659467615302319289u64,4659514197211941647u64,4659574306193218208u64,4659629017452011690u64,4659682616884647166u64,4659735076343626963u64,4659793374209350251u64,4659847015863232233u64,4659902407939625635u64,4659954292573926431u64,4660012298849166033u64,4660058761571727940u64,4660110101288066010u64,4660172236009565585u64,4660231106940749270u64,4660285930349728786u64,4660345389299731005u64,4660398208079110760u64,4660448528768072208u64,4660509712631916082u64,4660565160123695523u64,4660618476761940335u64,4660671464866110767u64,4660727572944476176u64,4660785111267566997u64,4660840482233337145u64,4660898259810158169u64,4660957300505937183u64,4661004562353550157u64,4661062050978715402u64,4661117044152290247u64,4661178665181957325u64,4661225862378286586u64,4661254015813320442u64,4661281294257000913u64,4661310580189011378u64,4661334547783278291u64,4661366318391665204u64,4661396446329680219u64,4661420224148240178u64,4661450799367585373u64,4661478834055363428u64,4661508326035852938u64,4661531621608612954u64,4661563199802465006u64,4661589353665652589u64,4661614907195491405u64,4661646200176027212u64,4661675107436233071u64,4661701584995643870u64,4661729144914301053u64,4661756536827581510u64,4661783988554294519u64,4661815378291853571u64,4661840805157952868u64,4661863134259992068u64,4661894801514285970u64,4661924888550468433u64,4661950651427321178u64,4661979068745145700u64,4662004433598789190u64,4662035190017650642u64,4662068802527916406u64,4662091386056946273u64,4662117268120859469u64,4662148491172455750u64,4662169383652602098u64,4662202007921816817u64,4662231906061901627u64,4662258413967833353u64,4662282648743425815u64,4662312132807431605u64] }
closed spec fn pub_raw_7() -> Seq<u64> { seq![4654210730143252480u64,4654318928244690754u64,4654428786168882319u64,4654539678513613295u64,4654651872680111558u64,4654765790880842174u64,4654882928451618918u64,4654998988501000441u64,4655116491109637607u64,4655235442434795530u64,4655355553085013780u64,4655479237587826953u64,4655600767047849686u64,4655726337433006821u64,4655849556622499119u64,4655976795626502567u64,4656108605960049656u64,4656236098291532143u64,4656366597127609621u64,4656499419891463566u64,4656631283001568788u64,4656744438581034379u64,4656813434255091276u64,4656880566916646070u64,4656950640112098188u64,4657019524955383005u64,4657091620372620929u64,4657161506651096325u64,4657233631095441221u64,4657304846023767622u64,4657376694710596272u64,4657452774757973256u64,4657527254356224849u64,4657601591897574133u64,4657675634330002522u64,4657751918446737621u64,4657829256775221432u64,4657906931554263341u64,4657983692859044895u64,4658060499023900862u64,4658141642982030731u64,4658219871035323738u64,4658299621252514238u64,4658381997543276518u64,4658461217795862430u64,4658543703158178185u64,4658625253056001029u64,4658708818578539912u64,4658792785642725258u64,4658873279569580786u64,4658960115479505325u64,4659044405800109238u64,4659131569804303506u64,4659215020098023798u64,4659301880637008799u64,4659390539977016843u64,4659475238876141637u64,4659562726136754471u64,4659654212101255201u64,4659742184906202861u64,4659830178821773774u64,4659919897211381691u64,4660013185055538020u64,4660105466186847958u64,4660195013492446593u64,4660289012940528419u64,4660379328584852544u64,4660472469534255402u64,4660568128365285868u64,4660659736595479606u64,4660755392347877514u64,4660844769009271518u64,4660944134513901542u64,4661036323286234746u64,4661133977950771950u64,4661227341221425945u64,4661274654086378448u64,4661324068997660934u64,4661372506443106327u64,4661421968413486481u64,4661468544605648375u64,4661517723781637865u64,4661566769257013418u64,4661616889614956285u64,4661665620630006294u64,4661717651279451259u64,4661767873232268532u64,4661815522987583786u64,4661865782323796404u64,4661917087075664711u64,4661965606984482187u64,4662018419386694500u64,4662067245179646824u64,4662120792275528817u64,4662171671956201826u64,4662222347787419045u64,4662272492334617723u64,4662322528250067576u64,4662376600912507647u64,4662426049468845942u64,4662480595141188282u64,4662533601937056386u64,4662583605526864383u64,4662636401656304606u64,4662690851891037654u64,4662741403037636284u64,4662794355517629976u64,4662848034115102651u64,4662899719737798820u64,4662954045727717930u64,4663005591712437371u64,4663058999390244962u64,4663108745914234385u64,4663165553501897386u64,4663220448818937358u64,4663268035242382852u64,4663325597095022507u64,4663379768053802100u64,4663434080409777026u64,4663489036199956526u64,4663538660898057591u64,4663595255840171780u64,4663647574121858571u64,4663703946742721623u64,4663756757165813006u64,4663812181787750590u64,4663864368567846699u64,4663921668956621269u64,4663976280819563600u64,4664030404279440874u64,4664084257479360040u64,4664135617866516713u64,4664191577290910047u64,4664245085903885068u64,4664302308667138716u64,4664358547807290157u64,4664415212678343872u64,4664467235411305116u64,4664522101261433464u64,4664574976555710887u64,4664630025804378748u64,4664681196635730792u64,4664736245664496327u64,4664796927931135610u64,4664852743099603380u64,4664906248853848169u64,4664957812870558305u64,4665015555482909567u64,4665073546364986379u64,4665124469146515197u64,4665182062665089732u64,4665235582493083356u64,4665295480807932035u64,4665348266162158305u64,4665407710158802387u64,4665463476508953883u64,4665514209954580398u64,4665574121463568610u64,4665620264887953811u64,4665686484075248248u64,4665732208585703267u64,4665762654392529872u64,4665789617166422009u64,4665815348377339875u64,4665844371196217813u64,4665873003138712076u64,4665901100498652915u64,4665928167506247365u64,4665955783499997564u64,4665985208520228943u64,4666014155802658053u64,4666040874924773474u64,4666067792398786547u64,4666097643919578340u64,4666124195256219363u64,4666151849732876534u64,4666177417006610697u64,4666208141429683782u64,4666239966463896270u64,4666263651043870192u64,4666293351051959678u64,4666320623118472708u64,4666348821413580977u64,4666378011028372849u64,4666404156095467409u64,4666434205528352201u64,4666459363234005018u64,4666488079289138807u64,4666515788191621553u64,4666544966261541333u64,4666572836022575222u64,4666601532286499711u64,4666628425021501158u64,4666656207921116453u64,4666684017868717792u64,4666711296862154077u64,4666737783877364875u64,4666765263201819741u64,4666798577964336703u64,4666820767538350339u64,4666849571004658536u64] }
closed spec fn pub_raw_8() -> Seq<u64> { seq![4658714329770622976u64,4658823133483065829u64,4658932817684420205u64,4659044989420881261u64,4659157045928523727u64,4659270594253542759u64,4659386456830635934u64,4659502765369645335u64,4659620651487938268u64,4659739641076100838u64,4659859663765388866u64,4659982303292351001u64,4660105104227620094u64,4660230292422535414u64,4660355703598408847u64,4660481385254142712u64,4660609816568555320u64,4660740054600474690u64,4660871215342552089u64,4661003193681475902u64,4661135493957404328u64,4661248895607572215u64,4661316267083052561u64,4661385185791295514u64,4661454837873794194u64,4661524026622092929u64,4661594909937712392u64,4661665829317313246u64,4661737360465183795u64,4661810040602705369u64,4661883066206780391u64,4661957397810766886u64,4662031254645632506u64,4662107002860400227u64,4662181660139730869u64,4662257454094182305u64,4662334873126819594u64,4662411675553336027u64,4662488604423689653u64,4662567756066749992u64,4662645997753987183u64,4662725242195828906u64,4662805036393484517u64,4662884629160609920u64,4662966879887144308u64,4663048337425990418u64,4663132395309836219u64,4663214941804998479u64,4663297141953997989u64,4663381345852987959u64,4663466769989982434u64,4663551713200590920u64,4663638032559952731u64,4663722734537710082u64,4663811643246955305u64,4663898040671642688u64,4663985592803441561u64,4664074354837835638u64,4664161435938853172u64,4664250460756526288u64,4664339394314734299u64,4664430591327579249u64,4664518741373801307u64,4664611446256892589u64,4664704848890062858u64,4664796847886689108u64,4664887451383157385u64,4664980788045629987u64,4665073980452177025u64,4665166054435496290u64,4665260621891285025u64,4665355847074929495u64,4665448655971820765u64,4665542696101832819u64,4665638511503319079u64,4665733862361142605u64,4665782311131557763u64,4665828920968775467u64,4665878462103992821u64,4665925899103808101u64,4665976632769336941u64,4666024063831789430u64,4666074984414294992u64,4666122689035240473u64,4666174010059880871u64,4666223583080935431u64,4666272366102885433u64,4666321769359344665u64,4666372779771950216u64,4666422808980379140u64,4666474079427484661u64,4666525624092790148u64,4666576201957521333u64,4666626594334640911u64,4666677954172041770u64,4666727537088700980u64,4666781859340280555u64,4666831042914316557u64,4666882497969424381u64,4666934030979906614u64,4666988323214818751u64,4667040311972870698u64,4667090842118797237u64,4667143579314414210u64,4667197072754128768u64,4667246975958525149u64,4667300402218079250u64,4667353231222917143u64,4667405666382689966u64,4667459447894451002u64,4667511650727416876u64,4667564706231650091u64,4667617962506706538u64,4667672221976172167u64,4667724605678800811u64,4667778064263996768u64,4667831135161392772u64,4667884815408132889u64,4667939805393124013u64,4667991448354769024u64,4668047232846862379u64,4668100254046332807u64,4668155058763614650u64,4668208026196966480u64,4668261776812450775u64,4668316647500430285u64,4668370817469649414u64,4668424550163094176u64,4668481552694168781u64,4668533395437076559u64,4668588477341239765u64,4668640092595191756u64,4668696884679740804u64,4668749893344778676u64,4668803243078323483u64,4668860218341509720u64,4668917851442502854u64,4668966772343210980u64,4669026646908608499u64,4669076177488514227u64,4669132474902781939u64,4669189618061393736u64,4669245511625040567u64,4669299459712813210u64,4669352256501960409u64,4669410394498693018u64,4669463807674058749u64,4669520802618503122u64,4669574810739610642u64,4669628646787148415u64,4669682876020044281u64,4669744535092813680u64,4669797062611563237u64,4669853592462589061u64,4669906437080492068u64,4669965858537147780u64,4670020306682808736u64,4670074209800555803u64,4670131027063921128u64,4670182098169568533u64,4670237937967096765u64,4670264459342045931u64,4670293903438804052u64,4670319047895341754u64,4670346171747687360u64,4670375293137782728u64,4670403723649746783u64,4670429849915192508u64,4670458990876594851u64,4670486203239626493u64,4670516508034086837u64,4670541888830648929u64,4670571742935293048u64,4670598801256745638u64,4670626647103401624u64,4670655074096928470u64,4670680568692944037u64,4670709946214273096u64,4670738375846627849u64,4670766144947372216u64,4670794286782558398u64,4670821352800592383u64,4670850161214702905u64,4670878572925018125u64,4670905452630806784u64,4670935439061675305u64,4670960764387875776u64,4670988103579573682u64,4671018823219771186u64,4671048017122658406u64,4671073628266906518u64,4671102512107514705u64,4671131466371842651u64,4671159263015353293u64,4671186658941851193u64,4671217185013026626u64,4671244687922005908u64,4671270263607004024u64,4671296413237071839u64,4671327467128804187u64,4671354101038768456u64] }
closed spec fn pub_raw_9() -> Seq<u64> { seq![4663218484871267824u64,4663327074838650238u64,4663437113742455734u64,4663548419943363405u64,4663661320875936003u64,4663774888552359684u64,4663890102197690145u64,4664007043615592494u64,4664124585366843608u64,4664244164293238666u64,4664364277142480172u64,4664486005174302881u64,4664609432391395154u64,4664734275779464004u64,4664860403617016421u64,4664986421723308386u64,4665115004990227952u64,4665244655003328787u64,4665375587266889934u64,4665507433664418415u64,4665639922616542167u64,4665752005402512536u64,4665819705741920751u64,4665888792235638102u64,4665957786370378721u64,4666027785788600615u64,4666098202251582924u64,4666169829276867415u64,4666241503691103063u64,4666313977890096756u64,4666387021416211310u64,4666460802384774614u64,4666534776977335570u64,4666609158279247639u64,4666684999732601396u64,4666760992368803971u64,4666836821067822845u64,4666914383036971745u64,4666992728518106599u64,4667070660912722896u64,4667149778360971611u64,4667229204112280755u64,4667309280334668890u64,4667390066401763918u64,4667469760763763727u64,4667552259540121341u64,4667635311700681215u64,4667717544065371419u64,4667800412607489455u64,4667884328984188761u64,4667968389726764794u64,4668053788025236016u64,4668140955877720982u64,4668226375836571271u64,4668311967099333168u64,4668398396299906594u64,4668486409566882156u64,4668575032842908808u64,4668662724172879757u64,4668751687307950555u64,4668841245718616631u64,4668932265490187184u64,4669021447098218421u64,4669112942738421475u64,4669204499401519871u64,4669294857047188177u64,4669387409318065524u64,4669481527513403150u64,4669573640749287526u64,4669667850973748396u64,4669762935749758000u64,4669855328041693505u64,4669951266368579751u64,4670044899899191853u64,4670140679676501374u64,4670234303091606500u64,4670282817337939093u64,4670331309813941456u64,4670379874417906601u64,4670428185584441544u64,4670477445299657769u64,4670526337613063573u64,4670576527899945966u64,4670624953965446011u64,4670673971788104126u64,4670724034421686534u64,4670774541257966564u64,4670825303565773308u64,4670875214466751083u64,4670925780016952037u64,4670974397617377640u64,4671026636734227232u64,4671076103102653897u64,4671127261234646640u64,4671177649268695289u64,4671230381021729705u64,4671281578846092211u64,4671333389703162783u64,4671384263776326491u64,4671438641498267687u64,4671489327609918626u64,4671541438853565907u64,4671592358391535423u64,4671644781401704759u64,4671697555925741496u64,4671750795708123526u64,4671802988370606843u64,4671855157393590164u64,4671907108933173510u64,4671959461849476576u64,4672013706090706161u64,4672066669620791712u64,4672120019134434194u64,4672171760557345473u64,4672226303206030836u64,4672278480530326946u64,4672331871880386865u64,4672384939809101473u64,4672439461731992653u64,4672492024490089880u64,4672547779020491378u64,4672600654534671126u64,4672654476618411226u64,4672708093698208327u64,4672762195882535603u64,4672815758151678060u64,4672870891842838934u64,4672924411725808140u64,4672979537995265527u64,4673032773929356860u64,4673088626536195555u64,4673140741793060277u64,4673195738649999075u64,4673252117593053987u64,4673306238139225447u64,4673359479076094686u64,4673415110186315966u64,4673470664330723302u64,4673525406045988874u64,4673581312144068261u64,4673634329825101480u64,4673688847130043823u64,4673745608153389387u64,4673798173165485451u64,4673854912363525204u64,4673911778060377732u64,4673964555663047026u64,4674020644664885694u64,4674076426353224398u64,4674130179277683111u64,4674185281028031198u64,4674243875761893985u64,4674296134120197063u64,4674353981625957614u64,4674407212117466389u64,4674462307435671454u64,4674518405728383376u64,4674574655423846443u64,4674631834316586143u64,4674685382237101857u64,4674739997068725584u64,4674766918171127028u64,4674794665611492327u64,4674822239493947182u64,4674850165797366530u64,4674878506836571875u64,4674905784922911067u64,4674933238463818262u64,4674961081809085294u64,4674989584531475504u64,4675016240074331049u64,4675044706650276495u64,4675073230593241121u64,4675100717614277381u64,4675128262552088635u64,4675157341088718311u64,4675184532451077862u64,4675212198032802474u64,4675240902433113008u64,4675267309156487188u64,4675295145190001895u64,4675324744400362904u64,4675352056104270116u64,4675380395851549298u64,4675410051191978905u64,4675435503676699129u64,4675463644632276009u64,4675492340318956893u64,4675520124702912886u64,4675548224756657213u64,4675575913290687054u64,4675602330761787395u64,4675631678788717039u64,4675660670463928120u64,4675687059595116256u64,4675716409408752294u64,4675743178778549105u64,4675771285346899827u64,4675797676759574590u64,4675828948766926098u64] }
closed spec fn pub_raw_10() -> Seq<u64> { seq![4667722339915189453u64,4667830932961204424u64,4667941090062509906u64,4668052344806273398u64,4668165281692876223u64,4668278986148546399u64,4668394434099804740u64,4668511254901281522u64,4668628723974814040u64,4668748073653034707u64,4668868338564734334u64,4668990354338750031u64,4669113177594105168u64,4669237633734178714u64,4669363478887291630u64,4669490468632009061u64,4669618688730237973u64,4669748403064769033u64,4669879592394148754u64,4670011149620119129u64,4670144793059452047u64,4670256076940273674u64,4670323999655908606u64,4670392675042228332u64,4670461842954781721u64,4670531514058831561u64,4670602208698255698u64,4670673384758846056u64,4670745100844572397u64,4670817468775767264u64,4670890130221591167u64,4670964194589276530u64,4671038327016731653u64,4671113303044483187u64,4671188909752104413u64,4671264134599337312u64,4671341405087953689u64,4671418631046349141u64,4671496045570988756u64,4671574500178652666u64,4671653031587203777u64,4671733012152080296u64,4671812856322539389u64,4671894214300607604u64,4671975024666909606u64,4672057057470239369u64,4672139295112585386u64,4672221940453842983u64,4672305742866162070u64,4672388659676840565u64,4672473503106768830u64,4672558694367200543u64,4672644032082581075u64,4672730459468960314u64,4672817207472930213u64,4672904565376000039u64,4672991601836845485u64,4673080004056059373u64,4673168203195475611u64,4673257684145547510u64,4673347345855331015u64,4673437421586217959u64,4673526249316431797u64,4673618526709402200u64,4673709414594553001u64,4673800788079014209u64,4673894323918018183u64,4673985761723909616u64,4674080035280240247u64,4674174512411148760u64,4674266787440169163u64,4674361740824539247u64,4674457047976775569u64,4674551494211407341u64,4674647566953590083u64,4674740092039042433u64,4674788255733580300u64,4674836801728311145u64,4674884799204178683u64,4674934463567161721u64,4674982820500868170u64,4675032110892458810u64,4675080969615784385u64,4675130468859608721u64,4675180111039944668u64,4675229975651482914u64,4675279960439642076u64,4675329441898865833u64,4675379591146476719u64,4675430199632606737u64,4675481754166029084u64,4675532378622565496u64,4675582598898627536u64,4675633432262373225u64,4675684188522866016u64,4675736180029697032u64,4675787574309299631u64,4675837464649409967u64,4675890026802775799u64,4675942151597903892u64,4675994419412006968u64,4676045762481855503u64,4676098505587347476u64,4676151119967515627u64,4676202113750007808u64,4676255173020068348u64,4676307431130981309u64,4676360256342504086u64,4676413509209074486u64,4676466209433612976u64,4676517877409147519u64,4676571253805849300u64,4676625315418197511u64,4676678802013452186u64,4676731023015847710u64,4676784273848321599u64,4676837535895814092u64,4676891310810505360u64,4676945155406746039u64,4676997246831696229u64,4677051679529218815u64,4677106238835505339u64,4677161114086458104u64,4677213858731266356u64,4677268347366443005u64,4677322352986161571u64,4677375664374238360u64,4677431389575167187u64,4677484548928273646u64,4677539831603260083u64,4677593571058701356u64,4677647407381117036u64,4677702119327105286u64,4677757430177077186u64,4677811001902019641u64,4677866651676450803u64,4677921310103710571u64,4677975268609355887u64,4678031808328498571u64,4678086459444006014u64,4678141768892100588u64,4678195476186826749u64,4678252174043229297u64,4678305640627372347u64,4678363509133804988u64,4678416298528736490u64,4678473488361616887u64,4678527169048161655u64,4678582920115101526u64,4678636877713649749u64,4678691932954655982u64,4678746616560732026u64,4678801940494892296u64,4678858977495656432u64,4678913840102225478u64,4678968520739620127u64,4679025381048865679u64,4679079276717421468u64,4679134952797668324u64,4679190635777350645u64,4679244231636573330u64,4679271617956088381u64,4679298976787812739u64,4679328450653848181u64,4679354611746324716u64,4679382688435446953u64,4679410643834692751u64,4679438202475167665u64,4679465771437307986u64,4679494263824288894u64,4679522042545760004u64,4679550566804834222u64,4679578824391107019u64,4679606110806246792u64,4679634479690584110u64,4679662021247397108u64,4679689726878832761u64,4679718095708194498u64,4679745622930124649u64,4679774553170123529u64,4679802068421120832u64,4679830265190656718u64,4679857471918691267u64,4679885816586284984u64,4679913847879320889u64,4679941434213744928u64,4679970502786050477u64,4679998410067918664u64,4680025964557737184u64,4680054038223202445u64,4680082830364540876u64,4680109542917074321u64,4680138251729175262u64,4680166093741284445u64,4680193278135489056u64,4680221995262646682u64,4680250374757271208u64,4680278425360480076u64,4680305140235731835u64,4680334304864121966u64,4680362915778456348u64] }
closed spec fn pub_raw_11() -> Seq<u64> { seq![4672225954276015761u64,4672334750896608615u64,4672444886502461774u64,4672556398421995002u64,4672668999517746705u64,4672782945536121504u64,4672898401733717053u64,4673014930010125264u64,4673132772532782157u64,4673251992743508653u64,4673372281569586184u64,4673494184698635616u64,4673617230824997703u64,4673741581796784053u64,4673867115623179564u64,4673993931370181899u64,4674122400397843340u64,4674252166299469742u64,4674382584321442578u64,4674514928083055883u64,4674648268771862092u64,4674759781021248809u64,4674827773143555244u64,4674896217330067440u64,4674965385077694084u64,4675035499642271197u64,4675106063357348256u64,4675177124381534559u64,4675248968367951000u64,4675321066094163342u64,4675394240846990672u64,4675467599795503445u64,4675541926644102149u64,4675616478700170012u64,4675692333100273186u64,4675768106328930438u64,4675844764114692237u64,4675921496117488910u64,4675999695830869711u64,4676078442276407424u64,4676156712083654495u64,4676236629096758929u64,4676316781680229614u64,4676397126870649694u64,4676478147683477252u64,4676560236177070961u64,4676643009858823311u64,4676725575980268126u64,4676808739054063452u64,4676892382284586628u64,4676977893667828767u64,4677062504551047758u64,4677148395073386945u64,4677233905769434317u64,4677320892202500699u64,4677408541283737351u64,4677495601851375236u64,4677583241174446191u64,4677672004253376315u64,4677760400865080902u64,4677850045944751037u64,4677940224589926341u64,4678030648646096965u64,4678121490434222771u64,4678213148472293248u64,4678304645651812581u64,4678397371645527117u64,4678489745465667276u64,4678582493312175414u64,4678677631689376871u64,4678769946465742619u64,4678865185778111506u64,4678960390180986212u64,4679054682648916840u64,4679150356213403117u64,4679243225253580426u64,4679290764356794240u64,4679339032628631804u64,4679387950505682954u64,4679436972341558510u64,4679485590642922776u64,4679534611214359960u64,4679584133231818886u64,4679633742468037686u64,4679683073747716984u64,4679732900920884304u64,4679782716934008603u64,4679832544217127086u64,4679883260592835579u64,4679933045764658718u64,4679983979747462244u64,4680034569445687322u64,4680085246335184483u64,4680136569146531276u64,4680187516309730440u64,4680238635051719118u64,4680289972541546142u64,4680341655704085044u64,4680392771999660350u64,4680444390057366992u64,4680496576617560775u64,4680548765706631302u64,4680600627347395183u64,4680652650272770962u64,4680704813193464748u64,4680757085378126545u64,4680809923137825774u64,4680862502333621836u64,4680914836874336823u64,4680967678619765703u64,4681020906609885525u64,4681074036152482975u64,4681127040639376661u64,4681179792321059330u64,4681233927669406079u64,4681286423494732965u64,4681340092457735003u64,4681394031144683228u64,4681447947566520992u64,4681501342668664340u64,4681555398797198308u64,4681609123629134932u64,4681662693155054132u64,4681716948405143890u64,4681771758510032709u64,4681824974240597882u64,4681879409137143723u64,4681933418852543103u64,4681988285692231916u64,4682043007437617548u64,4682097483483386059u64,4682150584960949210u64,4682205892306227796u64,4682260181476251271u64,4682315813301155109u64,4682369435672351919u64,4682424614237331102u64,4682480774322596505u64,4682533637618453289u64,4682588991074500765u64,4682643867741074751u64,4682699925970331736u64,4682754138504394755u64,4682809809032107891u64,4682864215987314491u64,4682919900217691288u64,4682974454658638859u64,4683030001024001429u64,4683085829249169778u64,4683139768650800562u64,4683195500792396539u64,4683251615632758460u64,4683306353554708916u64,4683360963053701248u64,4683417281468641051u64,4683473334722607920u64,4683528646218542901u64,4683584433830500499u64,4683639470530991908u64,4683695737653714276u64,4683746686747930735u64,4683774508611489340u64,4683802558170162161u64,4683830065195438100u64,4683859038886762119u64,4683886146645006274u64,4683913741205151678u64,4683942028127769094u64,4683970214953596695u64,4683997588072100266u64,4684025764858012316u64,4684052939947599777u64,4684081344889046539u64,4684109538689901029u64,4684137761002466417u64,4684165691257255677u64,4684193784865113086u64,4684221250445672605u64,4684249467398118808u64,4684277479353493959u64,4684305325571235119u64,4684333430991970579u64,4684361351413002718u64,4684388983219104514u64,4684416760854807891u64,4684445309632991409u64,4684473452533329481u64,4684500924814037982u64,4684529203923250892u64,4684557076735429548u64,4684584998173509943u64,4684613943765439925u64,4684642349957581164u64,4684669151302550500u64,4684697052255354880u64,4684725439185426789u64,4684753735371429668u64,4684781535457786095u64,4684809496608852096u64,4684837851316361363u64,4684865708206237260u64] }
closed spec fn pub_raw_12() -> Seq<u64> { seq![4676729690352779264u64,4676838453823096540u64,4676948452952068902u64,4677059839609739936u64,4677172496890535818u64,4677286586312714669u64,4677401770958425948u64,4677518371005455663u64,4677636324936128240u64,4677755425574965215u64,4677875864484379938u64,4677997593505763112u64,4678120544386930442u64,4678245129087401066u64,4678370662638918671u64,4678497659008193659u64,4678625939002318494u64,4678755464550703065u64,4678886316494939803u64,4679018402723442092u64,4679151917135085489u64,4679263406198520755u64,4679331177030368205u64,4679399902224564670u64,4679469047349739572u64,4679538726397760923u64,4679609398648379539u64,4679680373594549282u64,4679752250057790430u64,4679824450821986189u64,4679897289454108908u64,4679971104411325406u64,4680045171445326466u64,4680119917455245469u64,4680195368678178632u64,4680271457659087592u64,4680347858736372095u64,4680425329913348332u64,4680503043491406807u64,4680581673773541045u64,4680660440079007534u64,4680740051977635260u64,4680820171562013216u64,4680901057038703290u64,4680982049085557886u64,4681064116166162645u64,4681146261834360999u64,4681228987522430796u64,4681312586621306012u64,4681396651542026230u64,4681481124037962970u64,4681565916120698218u64,4681651358482097924u64,4681737418013118195u64,4681824251902690119u64,4681911376585599798u64,4681999119633848939u64,4682087166600855893u64,4682176093933079311u64,4682264505291983605u64,4682354109648491826u64,4682444143034437206u64,4682534631205879624u64,4682625839502462655u64,4682717349422572975u64,4682808856112867888u64,4682901216037929851u64,4682994122640173144u64,4683086946710324878u64,4683180371553630028u64,4683274845605905983u64,4683369037867095635u64,4683464009077297984u64,4683559158944395952u64,4683654501473418897u64,4683747384394930507u64,4683795334474974940u64,4683843528722192164u64,4683892119144064719u64,4683940456238458234u64,4683989670007832314u64,4684038987014476294u64,4684087663809859158u64,4684137485437364706u64,4684186752361254040u64,4684236615859536763u64,4684286707788232104u64,4684336687566741412u64,4684387112647459969u64,4684437598778561659u64,4684488243328673068u64,4684538734428192925u64,4684589490400063914u64,4684640313146650447u64,4684691947277842697u64,4684743070562188788u64,4684794288095297221u64,4684845659058381364u64,4684897195071904730u64,4684949199312454785u64,4685001527908935034u64,4685052901730749409u64,4685105220582807857u64,4685157752657658721u64,4685209421801424368u64,4685262091473283501u64,4685314395358239916u64,4685366942118442959u64,4685419841698183460u64,4685472899099074232u64,4685525902300913703u64,4685578929025430061u64,4685632074187964573u64,4685685342736319565u64,4685739095049174935u64,4685792018179080113u64,4685845679156878954u64,4685899304799122856u64,4685952335378801859u64,4686006777387813542u64,4686060200651198457u64,4686114684634066531u64,4686167585904306160u64,4686222102343383096u64,4686275704586645170u64,4686330354870646945u64,4686384409404889052u64,4686438334031832338u64,4686492880439473078u64,4686547474744589104u64,4686601820058425072u64,4686655745949806730u64,4686710261392451253u64,4686764646845333583u64,4686820410343626795u64,4686874991227829014u64,4686929070700369229u64,4686984266074132421u64,4687039872486573762u64,4687094320329869020u64,4687150238749350586u64,4687204775611856008u64,4687259881574708019u64,4687314391347995712u64,4687369578324238847u64,4687424186077756470u64,4687480070969005336u64,4687534841367780498u64,4687589511951515700u64,4687645785705667573u64,4687701280957483346u64,4687756051686111995u64,4687812079452024943u64,4687867979612741540u64,4687922891449943720u64,4687978825571825720u64,4688033876909565673u64,4688088569792771077u64,4688144503000684036u64,4688200263805173760u64,4688251442687012504u64,4688279175077812398u64,4688307334591083971u64,4688335025406600439u64,4688362822751049744u64,4688390264142353452u64,4688418366202706500u64,4688446128273448396u64,4688473879747646980u64,4688501503427670652u64,4688529802307477019u64,4688557486931368634u64,4688585606735090575u64,4688613919338176446u64,4688642111513815312u64,4688669688031662100u64,4688697680570349099u64,4688725107630205934u64,4688753185910184057u64,4688782222132795933u64,4688809950163345028u64,4688837432398069734u64,4688865413299113348u64,4688893482600891836u64,4688921526122558626u64,4688949072881436013u64,4688976860855984665u64,4689005287090161294u64,4689033055627405951u64,4689061522478229304u64,4689089185218403552u64,4689117180990341933u64,4689145327563736036u64,4689173022251595019u64,4689201536020641114u64,4689229235144342320u64,4689257469843593390u64,4689285259927829977u64,4689313814347882535u64,4689341623948450516u64] }
closed spec fn pub_raw_13() -> Seq<u64> { seq![4681233289980149760u64,4681342128643318481u64,4681452231538700714u64,4681563594130810995u64,4681676253699965452u64,4681790244605902455u64,4681905539120313139u64,4682022171946533257u64,4682140028804072997u64,4682259084301085704u64,4682379664614567707u64,4682501385533924573u64,4682624545473484030u64,4682748633607015760u64,4682874359875433923u64,4683001114633900655u64,4683129444270975484u64,4683259067105523270u64,4683390069346127577u64,4683522284554215752u64,4683655441837610500u64,4683766943277423526u64,4683834831471829320u64,4683903405589692154u64,4683972612871633764u64,4684042492985972097u64,4684112963091377947u64,4684184081736845492u64,4684255921026285699u64,4684328531588773052u64,4684401104132209902u64,4684474913076472185u64,4684549129853649027u64,4684624048119244390u64,4684699354615523574u64,4684775303432751809u64,4684851983820349506u64,4684928922180862870u64,4685006862007490576u64,4685085347071626576u64,4685164334715655684u64,4685243780168838808u64,4685323843289858703u64,4685404579466613621u64,4685485721122641019u64,4685567425281945240u64,4685649880081273717u64,4685732824541233676u64,4685816563295265489u64,4685900921246142431u64,4685985003941155308u64,4686069858544870490u64,4686155640621003440u64,4686241317367358423u64,4686328405199448703u64,4686414949374578655u64,4686502737767374520u64,4686591167072370164u64,4686679998317585236u64,4686768421901684441u64,4686858066338827469u64,4686948191107933012u64,4687038900782864794u64,4687129457694399791u64,4687220758494270456u64,4687312909182269653u64,4687405445077295694u64,4687497729733914788u64,4687590615256458592u64,4687684127191392584u64,4687779015525905990u64,4687872303950741897u64,4687967777929815917u64,4688063112442711900u64,4688158304208074834u64,4688251066138639729u64,4688298973509529371u64,4688347220681051603u64,4688395673358169014u64,4688444300402368709u64,4688493631262859198u64,4688542751180325913u64,4688591814653332423u64,4688641153167454634u64,4688690423262747820u64,4688740480805934989u64,4688790611947681743u64,4688840510534129287u64,4688890763730256658u64,4688941427542437396u64,4688991941872576365u64,4689043032776305017u64,4689093296271763964u64,4689144062046468309u64,4689195118753667351u64,4689246083677415277u64,4689297893936626401u64,4689349374978004353u64,4689400965901825606u64,4689452517131559109u64,4689504190810810221u64,4689556777892166238u64,4689608526424107385u64,4689660894161483596u64,4689713001185755005u64,4689765281683755500u64,4689818744654972060u64,4689870489836838715u64,4689922957200276324u64,4689976070166017999u64,4690029494465349026u64,4690082266513766613u64,4690135566319175598u64,4690188905535204491u64,4690241690709042135u64,4690294782964451508u64,4690348078552202609u64,4690402124745618227u64,4690455499455256855u64,4690509726097428447u64,4690563639868412396u64,4690617312150565159u64,4690671760576257982u64,4690725680394555884u64,4690779276535528423u64,4690833378546339021u64,4690887816792959353u64,4690942335054820409u64,4690996215891995132u64,4691050859352152867u64,4691104836224796328u64,4691160177488290644u64,4691215020604298101u64,4691269246980181721u64,4691323551850887643u64,4691377989925709283u64,4691432932891116438u64,4691487299875639394u64,4691542578114783609u64,4691597167930799817u64,4691652019001086706u64,4691707125759366660u64,4691762012915968770u64,4691817473433525027u64,4691872519787384930u64,4691927202512133685u64,4691981293991684473u64,4692038279471738913u64,4692093470402787934u64,4692148854676084752u64,4692204014185153036u64,4692259259249969857u64,4692314786769015931u64,4692370171136802030u64,4692425878297150226u64,4692480451972679336u64,4692536385142796583u64,4692591705103253111u64,4692646512742830703u64,4692703326312524153u64,4692754402188162236u64,4692782276624697524u64,4692810271474935923u64,4692838295883139252u64,4692866455703071490u64,4692893738971718222u64,4692921915434648732u64,4692949595128776884u64,4692977400231655113u64,4693005824093291807u64,4693033100322487140u64,4693061008143803220u64,4693089037791866651u64,4693116989804101239u64,4693144729984253821u64,4693173087965387162u64,4693200938247026377u64,4693228296759205167u64,4693256882021417878u64,4693285234719741444u64,4693312830825216082u64,4693340271594608525u64,4693368654692710613u64,4693396775102022943u64,4693424717171408241u64,4693452567014960792u64,4693480618318249329u64,4693508472817546428u64,4693536789979310588u64,4693565305233556374u64,4693592796726512583u64,4693620880465394139u64,4693648910328205935u64,4693676782750401561u64,4693704548837796872u64,4693733532187643347u64,4693760983449640894u64,4693788921984268108u64,4693817282559561695u64,4693844982573180125u64,4693873119702800138u64] }
closed spec fn pub_raw_14() -> Seq<u64> { seq![4685736889607520256u64,4685845703909634474u64,4685955856454838649u64,4686067187917025968u64,4686179915896419516u64,4686293876222189371u64,4686409232515409641u64,4686525723882586898u64,4686643583626344661u64,4686762799583335547u64,4686883127455819760u64,4687005205304138793u64,4687127916093198303u64,4687252482823525761u64,4687377926414376370u64,4687505015390018208u64,4687633391687617741u64,4687762749058826895u64,4687893670588405776u64,4688025564292422042u64,4688159238071403938u64,4688270415584783499u64,4688338289193480356u64,4688407157722761396u64,4688476129881013354u64,4688546235549854204u64,4688616621302102360u64,4688687776059654930u64,4688759551852298633u64,4688831966117600690u64,4688904985801492791u64,4688978638460485108u64,4689052604428751733u64,4689127671935870697u64,4689202701492658635u64,4689279133493707670u64,4689355847278971060u64,4689432908716067258u64,4689510112350940692u64,4689588915929851363u64,4689667950045426614u64,4689747412077183500u64,4689827530345583477u64,4689908083367753023u64,4689989776978617565u64,4690070899650889515u64,4690153739176208499u64,4690236141525396357u64,4690319762322446352u64,4690403915643901444u64,4690488463140275094u64,4690573371929297682u64,4690659010003767132u64,4690745199741015949u64,4690831917535903875u64,4690918589958757286u64,4691006623181868892u64,4691094640874378756u64,4691182790748802122u64,4691272059170148319u64,4691361875199824757u64,4691452089561948094u64,4691542199899963523u64,4691633279251320406u64,4691724169692835742u64,4691816606219498422u64,4691908758127268332u64,4692001708830235820u64,4692094235946348708u64,4692187779938918597u64,4692281932734512759u64,4692376095013394711u64,4692470532616860205u64,4692565427015867433u64,4692661394503863632u64,4692754578483684835u64,4692802501694413865u64,4692850950841068159u64,4692899386699093639u64,4692948260429034947u64,4692997164481445364u64,4693046132485918818u64,4693095029434453328u64,4693144575593064432u64,4693194714457162383u64,4693243993812405060u64,4693294078035929072u64,4693344145509080629u64,4693394697136715596u64,4693444409579280531u64,4693495308042704519u64,4693545802581634187u64,4693596789864981856u64,4693647463796105544u64,4693699031999549800u64,4693749707992257790u64,4693801341298816319u64,4693852784767820366u64,4693904639368273854u64,4693956449275297661u64,4694008600743890649u64,4694060344508418097u64,4694112396350949687u64,4694164284572407169u64,4694216511177158033u64,4694268841127411974u64,4694321787474192368u64,4694374045251815866u64,4694426943254444376u64,4694480384407227073u64,4694532559120183067u64,4694585778163027018u64,4694639008828052472u64,4694692355036288123u64,4694745533560410604u64,4694798863258791969u64,4694851815103130501u64,4694905853299317015u64,4694959034795556864u64,4695012781664111690u64,4695066448465886183u64,4695121268397660176u64,4695174690102830957u64,4695228984605485826u64,4695282419418896794u64,4695337370364353184u64,4695391256226639643u64,4695445029964509872u64,4695499410125992493u64,4695554177341337895u64,4695608440344702616u64,4695663098253130334u64,4695717877614643249u64,4695772875074595455u64,4695826590589889020u64,4695881039402128900u64,4695936577529744196u64,4695991348593380295u64,4696045778610843288u64,4696100934933045838u64,4696155235929691259u64,4696211206517563589u64,4696265137820604039u64,4696321082123276517u64,4696376137522337546u64,4696431237314180547u64,4696486756930486796u64,4696541568959520965u64,4696597292380615344u64,4696652479935820071u64,4696707895570968084u64,4696763387244217106u64,4696818398972050670u64,4696873419040710722u64,4696929279539981320u64,4696984697176584094u64,4697039976764348039u64,4697095688563260916u64,4697150625343915164u64,4697207477722933101u64,4697258538965617607u64,4697286331956688060u64,4697314112183115710u64,4697341884098781643u64,4697370156206338867u64,4697397677987404448u64,4697425565901547110u64,4697452838857977364u64,4697480977091403973u64,4697509213172775518u64,4697537224803451142u64,4697564974428236808u64,4697592635396307550u64,4697620420901250007u64,4697648486992110944u64,4697676492283414839u64,4697704398000196944u64,4697732271564853871u64,4697760799600922329u64,4697788607800471978u64,4697816259650327151u64,4697844432402405917u64,4697872749422436155u64,4697900105606742671u64,4697928098416871604u64,4697956378762176102u64,4697984976874930962u64,4698012669282162311u64,4698040283422204625u64,4698068524026176733u64,4698096644963770040u64,4698124935286283567u64,4698152582897006019u64,4698181028993688404u64,4698208582652001255u64,4698236664758795239u64,4698264711994749747u64,4698292227977609478u64,4698320776857154224u64,4698349111284686914u64] }
pub closed spec fn pub_raw(i: int) -> Seq<u64> { if i == 0 { pub_raw_0() } else if i == 1 { pub_raw_1() } else if i == 2 { pub_raw_2() } else if i == 3 { pub_raw_3() } else if i == 4 { pub_raw_4() } else if i == 5 { pub_raw_5() } else if i == 6 { pub_raw_6() } else if i == 7 { pub_raw_7() } else if i == 8 { pub_raw_8() } else if i == 9 { pub_raw_9() } else if i == 10 { pub_raw_10() } else if i == 11 { pub_raw_11() } else if i == 12 { pub_raw_12() } else if i == 13 { pub_raw_13() } else if i == 14 { pub_raw_14() } else { Seq::empty() } }
closed spec fn pub_bias_0() -> Seq<u64> { seq![4621819117588971520u64,4621659802752153289u64,4621372698275908420u64,4621137722965350364u64,4620855459858704918u64,4620491006058859961u64,4619992007220147310u64,4619493233561416027u64,4619027110999983181u64,4618622687753445310u64,4618184937869664898u64,4617837485158413264u64,4617360103597911992u64,4616951401931728119u64,4616591113961538480u64,4616240733910529055u64,4615724846573213765u64,4615031292230598708u64,4614538148071401639u64,4613925658522079252u64,4613410897084670804u64,4612742562899969022u64,4612505223199606597u64,4611858055933153457u64,4610724049546981566u64,4610606055236744459u64,4609350451660633565u64,4609132477438668833u64,4608500172050986015u64,4607481457815274809u64,4607178815920315521u64,4605341347272348349u64,4603008482665370432u64,4603484062786020739u64,4603343550477646788u64,4598531904635764087u64,4600304521449097223u64,4588000687267121150u64,4597605964552376821u64,4577379397905932316u64,13819868314458968575u64,13813094900619403263u64,13817209389238969070u64,13823604500709835013u64,13825701376696338824u64,13820718594068615945u64,13822858704611542530u64,13823935965642409463u64,13826151736659075837u64,13827578477021026819u64,13828297251521555132u64,13826054458907124607u64,13827110102659780288u64,13827782039724183939u64,13826965987471704387u64,13824541249432328184u64,13823136126348588553u64,13828596290536812542u64,13827389325836677249u64,13829832078274563006u64,13829219588725240574u64,13830215784962814973u64,13827313665362937407u64,13831420047503173825u64,13830669747805253901u64,13830941765222747079u64,13831540743973187310u64,13828927755469387011u64,13830019428019061628u64,13831254315036886591u64,13831487601497584383u64,13831343486309508527u64,13831309258952340466u64,13831185860322550515u64,13832245106954908100u64,13831899230503526001u64,13833288140628607107u64,13832037040652123583u64,13833979893531371215u64] }
closed spec fn pub_bias_1() -> Seq<u64> { seq![4626885667169763328u64,4626637800305271924u64,4626553751877226122u64,4626387963115943546u64,4626257977971698565u64,4626109809543958076u64,4625978585909815568u64,4625839931336287899u64,4625709777307056891u64,4625583620222495175u64,4625459602347756460u64,4625338399222784852u64,4625210722173348898u64,4624988075466770770u64,4624753437926184767u64,4624520151465486975u64,4624277520035562390u64,4624055605163923708u64,4623842584901549084u64,4623630127589127881u64,4623420034666511047u64,4623153083798598661u64,4622998835511361221u64,4622778609489582804u64,4622564463327301337u64,4622419672599281376u64,4622196181467773115u64,4622024256551998246u64,4621846702136689164u64,4621645616413327072u64,4621489566686238684u64,4621302329531730756u64,4621079964300129337u64,4620997098066985720u64,4620831815960661223u64,4620532213995450401u64,4620311087253746509u64,4620036592856458278u64,4619707830083660231u64,4619479722762533916u64,4619207480165059369u64,4618944695126802301u64,4618830303696267090u64,4618395706332225837u64,4618175255130466052u64,4617965837747793324u64,4617688190830765933u64,4617529438943901123u64,4617279038804619323u64,4617041248744294161u64,4616787921265254570u64,4616689742793377894u64,4616607101740215645u64,4616138727378969113u64,4616104950381763835u64,4615918501357190696u64,4615637927100405514u64,4615000667753132589u64,4614405291882394209u64,4614168402541994521u64,4613691921701418723u64,4613338389130670139u64,4613426209323403864u64,4613102400510195925u64,4612616011750439911u64,4612421456246537506u64,4612029192718993536u64,4612280943938163547u64,4612092693473739460u64,4611813470296842489u64,4611322127577496368u64,4610604253796893511u64,4608765884429000874u64,4609795407303817770u64,4609157697596582063u64,4609396388376832789u64,4607868767383228672u64,4608034499849515906u64,4605753876998215424u64,4606099753449597568u64,4605719649641047426u64,4602134784337660664u64,4605071131294706174u64,4599634385824544511u64,4603502077184530176u64,4603590347737226754u64,4604494670542402687u64,4603203038169272829u64,4599785706772024069u64,4600055922749666299u64,4602520292465763579u64,4599220054658826497u64,4600070334268473849u64,13806350309817454606u64,4596561129438827010u64,13821961587565770238u64,4593931027256442352u64,4600776498690045705u64,13821230202986285557u64,4597886989169124848u64,4596063932039965200u64,4598243674259612412u64,13816856307028183043u64,13823723395739997702u64,4596128783874599407u64,13814146941492357119u64,4590919019825656835u64,13822937967964984323u64,13822188568986989819u64,4599281303613758718u64,13817166154682546169u64,13828347691837381628u64,13820077281481678350u64,13822332684175065602u64,13823600897830133242u64,13821612108234686467u64,13828943968428045572u64,13821612108234686467u64,13826144530899672062u64,13823950377161217031u64,13825903137959644932u64,13820473598248887314u64,13815040455658427389u64,13826567869264644862u64,13816294257794686989u64,13822357904332978949u64,13826364306561487743u64,4599911807561590263u64,13827436163272801794u64,4585896605521215484u64,4585089560467988487u64,13830516625417923331u64,13826261624489983740u64,13825852697643818490u64,13821994013483087359u64,13826726395971528195u64,13825741008373059576u64,4588404209793732610u64,13822999216919916544u64,13827210983291433468u64,13817591294487369728u64,13826416548317165312u64,13825078078507910657u64,13826946171633344002u64,13821774237821271553u64,4595055125723433992u64,13815285451478155278u64,13824159344183927292u64,13830867906188858248u64,13829080877856717572u64,13828331478878723076u64,13824472794717991936u64,13828666546690999549u64,13822390330250295801u64,13822184966107288066u64,13819493614969971710u64,13813599303777669119u64,13830219387842516734u64,13824516029274415107u64] }
closed spec fn pub_bias_2() -> Seq<u64> { seq![4631530004285489152u64,4631416035067419007u64,4631286669168122790u64,4631225420213190551u64,4631081642795086748u64,4631007220811244451u64,4630870930627521151u64,4630735400426234970u64,4630670436001610151u64,4630536904272658616u64,4630468787328294637u64,4630337422956663774u64,4630210562184660281u64,4630144781482603001u64,4630021608032794418u64,4629958951702978626u64,4629836031580649082u64,4629710831511008182u64,4629617156638758876u64,4629361971424872995u64,4629271786842334901u64,4629040752181450795u64,4628798064456530867u64,4628715367108373276u64,4628486133887340118u64,4628374951271539409u64,4628171219683396236u64,4627970922089968933u64,4627870322933292545u64,4627679539194078062u64,4627568300283282011u64,4627385116368438716u64,4627189266079643442u64,4627120529890330699u64,4626893942534078621u64,4626832130629192961u64,4626626541306203498u64,4626484058672992564u64,4626375578216968277u64,4626200219306477539u64,4626122926277872792u64,4625950719887121213u64,4625854117675114116u64,4625730099800375401u64,4625582775797565044u64,4625502273954225796u64,4625337273322878009u64,4625272421488243874u64,4625019150304199626u64,4624759630375672401u64,4624618780297326389u64,4624259843407024960u64,4624199607762008880u64,4623916781705410013u64,4623692840213939015u64,4623566964604354009u64,4623280648258043930u64,4623145540269222815u64,4623016624729889335u64,4622617605802904309u64,4622662078849224593u64,4622428342028564064u64,4622301002749100163u64,4622089333566613750u64,4621978657605771120u64,4621830826948002683u64,4621614766755879584u64,4621547437941450389u64,4621288593552867270u64,4621114079067306674u64,4620933597312239802u64,4620767864845952562u64,4620826749411080431u64,4620850168129142758u64,4620330227552162834u64,4620459706041449725u64,4619787093437101952u64,4619518228539347934u64,4619168073668319878u64,4619420950787396731u64,4619052556337877824u64,4618666597849812162u64,4618474519325704832u64,4618022357923116835u64,4618079103278421692u64,4618207230687820382u64,4617711384368846879u64,4617634372815218844u64,4617359878417930623u64,4617399735274632864u64,4616742660088999486u64,4617145507075667777u64,4616973244389920866u64,4616798054364416165u64,4616271808747957923u64,4616607777280159739u64,4615562716986628427u64,4615587937144541702u64,4614885375602671927u64,4614879971283119037u64,4616059914385490107u64,4614562017149426680u64,4614863307964497789u64,4614232353656703160u64,4613417652484111882u64,4613770734694897729u64,4613223547340172169u64,4613375318647614600u64,4613275789095849667u64,4612561067834985991u64,4613979701717607675u64,4612703381583210877u64,4613773436854674106u64,4612625469309657412u64,4612612408870737993u64,4611760327821239495u64,4612839840651920248u64,4612938919843722376u64,4613038899755449978u64,4612625469309657412u64,4610805114340274190u64,4611672507628505838u64,4612710136982651977u64,4611212239746588528u64,4612214290663678463u64,4612380923849891194u64,4612034597038546358u64,4611164501590538356u64,4610113361437510127u64,4604274894880587007u64,4610449329969712011u64,4609322529342943868u64,4610437620610680848u64,4610161099593560209u64,4607937222097564658u64,4610753773304522256u64,4607185120959793785u64,4606328536310668034u64,4604119971053405444u64,4609699030271791996u64,4607919207699055221u64,4604373974072389122u64,4604593749734204928u64,4601781702126874619u64,4608073230806311292u64,4606962643138201602u64,4595127183317472244u64,4610456535729115759u64,4608071429366460299u64,13821594093836176895u64,4607788603309861522u64,4608555115966439935u64,4608059720007429136u64,4599317332410777592u64,4606092547690193667u64,4607724652195152771u64,4605858360509570563u64,4610241263666927494u64,4605894389306589437u64,4601752879089259520u64,4608246169032002319u64,4606762683314746370u64,4607311221749360114u64,4603248074165546498u64,4604146992651169793u64,4604687424606454270u64,4604990066501413378u64,4598294114575438853u64,13829091686495823360u64,4603759683083215876u64,4605575534452971516u64,4596971857724844028u64,4596575540957634560u64,4597101561394110461u64,4600383784802538493u64,4599695634779476984u64,4606537503333378052u64,4606937422980288516u64,4596099960836984848u64,4602448234871725056u64,13824483603357097986u64,4605444029343852541u64,4593354566504140766u64,4605101755772172284u64,4606018688656304638u64,4604165007049679356u64,4593181628278448154u64,4600898996599910398u64,4603896592511887876u64,4594046319406903289u64,4595494677047064560u64,4607905696900173065u64,4599908204681888763u64,4602871573236698621u64,13826830879482883074u64,13831296648873383919u64,4606897791303567358u64,4605714245321494527u64,4605197232084272637u64,4607054516570599933u64] }
closed spec fn pub_bias_3() -> Seq<u64> { seq![4636103972657037312u64,4635997955107059243u64,4635891163500895221u64,4635784315599735856u64,4635679775793385518u64,4635575883379481615u64,4635437594723423669u64,4635335236348142839u64,4635234032020266523u64,4635131349948762476u64,4635033579615602029u64,4634904340380045332u64,4634808624814214873u64,4634714415139509817u64,4634619797326088530u64,4634527276501243737u64,4634411421400829631u64,4634322207906961188u64,4634234936590432050u64,4634093903553351175u64,4633919276477799884u64,4633700373388412007u64,4633535907559519971u64,4633361027156489640u64,4633199967174815803u64,4633039807913067440u64,4632839482172142466u64,4632674425245799337u64,4632528255290393494u64,4632374879575583857u64,4632220912763323128u64,4632040965810712006u64,4631885985688535119u64,4631751750272141807u64,4631621596242910799u64,4631482435014425051u64,4631326216402350637u64,4631160202461086692u64,4631053889362383077u64,4630907297194512168u64,4630796367906190498u64,4630663680602169095u64,4630516525484344764u64,4630384485572769795u64,4630293175090324858u64,4630172816390283382u64,4630044886013368389u64,4629923936215875820u64,4629796343608932880u64,4629712013705910367u64,4629426204014558367u64,4629307703049363181u64,4628980854306406767u64,4628779261928086595u64,4628562413606028706u64,4628334418874893074u64,4628134402756442482u64,4627943787902214026u64,4627825399527009524u64,4627668449079995662u64,4627393110257777299u64,4627351789731196174u64,4627069864394522781u64,4626884541269856485u64,4626736992087064760u64,4626647651929456797u64,4626494360657140174u64,4626208888735760227u64,4626058581098196736u64,4625921840554510700u64,4625897070756560162u64,4625625897763997116u64,4625538696816212155u64,4625400605192637907u64,4625124872305452148u64,4624926488741866478u64,4624657173484149722u64,4624600653308826223u64,4624580274520512371u64,4623997733908711997u64,4623750261109187989u64,4623523730047931253u64,4623210054333884898u64,4623153308978580029u64,4622980145572907634u64,4622644852580649900u64,4622693491456625502u64,4622627063362121787u64,4622526407910450056u64,4621973591056190328u64,4621938350389106154u64,4621676803840746624u64,4621901083102189663u64,4621420999381911968u64,4621115655327176254u64,4621004416416380192u64,4621244345686528349u64,4620811549762338050u64,4620796462703586370u64,4619960707202737085u64,4619933235245010114u64,4620311987973671995u64,4619458105484322560u64,4619853746711587013u64,4619459456564210749u64,4619809386255257402u64,4618763875601763387u64,4618533066120860604u64,4619202976565431999u64,4618780313740403267u64,4617472018048652160u64,4618056360100303493u64,4617510523825466178u64,4616854124179776894u64,4617263501385904895u64,4617408742473887616u64,4617227697768867333u64,4617304484142513989u64,4617014677506492675u64,4617826451339326207u64,4616317520284175745u64,4616441144093947076u64,4616288472066579205u64,4615532092509162375u64,4616364808080263101u64,4616398134717505665u64,4615372665082353415u64,4615473996073969273u64,4615693321375822216u64,4615306462167831046u64,4612793003215795594u64,4614232804016665852u64,4612896586007225093u64,4614385476044033802u64,4614412948001760762u64,4612699778703509003u64,4615127218902661768u64,4613739659857468805u64,4614038698872726274u64,4613359556048918780u64,4613605452588573187u64,4613484756118559748u64,4613455482720981749u64,4611176210949569519u64,4613912147723197185u64,4612826329853038091u64,4611291503100030204u64,4613175809184122109u64,4612740311100155382u64,4609803513783146992u64,4608551513086737904u64,4612302561216374902u64,4613238409218942469u64,4608664103077422346u64,4614176509021323766u64,4610293505422605037u64,4611995415721788280u64,4612884426288231170u64,4611167203750314733u64,4608679415316155406u64,4609214442951886841u64,4607988563133316592u64,4612679512505185790u64,4609914302333980171u64,4612062068996273408u64,4605195430644421635u64,4612539450556774658u64,4611836889014904838u64,4609254074628608016u64,4613738759137543421u64,4610298909742157836u64,4606773491953852419u64,4612796155735534844u64,4612298958336673029u64,4608691124675186704u64,4612697076543732490u64,4608089443764970006u64,4614104001067323146u64,4611905343729240825u64,4613614459787827973u64,4612360657651568117u64,4612607004551185148u64,4611552711878417917u64,4605469249501765635u64,4610122368636764688u64,4613036647955636226u64,4606804116431318016u64,4611839140814718456u64,4612424158406313973u64,4616416599475977850u64,4611520285961100805u64,4611073528878065652u64,4609118966639786496u64,4615692871015859457u64,4608407397898662408u64,4611075330317916690u64,4612149889189007110u64,4614430962400270334u64,4609503574047964162u64,4613060066673698552u64] }
closed spec fn pub_bias_4() -> Seq<u64> { seq![4640650328333370157u64,4640545837785140743u64,4640439025068353467u64,4640314317579921811u64,4640207568195004295u64,4640103809481714329u64,4639983014495458951u64,4639880297239582815u64,4639763281054889778u64,4639664891476780568u64,4639568268154150217u64,4639455987785940337u64,4639359153357077453u64,4639250905117908953u64,4639158088744338614u64,4639065209038898515u64,4638959845918241299u64,4638869724667572965u64,4638767239628552615u64,4638655993680882146u64,4638484040617609606u64,4638288443656293371u64,4638122317125038742u64,4637929788240968653u64,4637766560901974144u64,4637600195116989311u64,4637429550912358475u64,4637258259315281206u64,4637081788578632460u64,4636937997086779821u64,4636791039001439188u64,4636621548844212866u64,4636480839503355209u64,4636297669662260750u64,4636169359294127197u64,4636026243342218664u64,4635880185976803505u64,4635735718945006761u64,4635561992589380944u64,4635447347831366694u64,4635326158780143921u64,4635187391616625567u64,4635060207148398857u64,4634932150107744344u64,4634788274173398693u64,4634688941654117502u64,4634563882321964958u64,4634447816115318319u64,4634342952612744764u64,4634232811454357884u64,4634007293703017307u64,4633759708313502614u64,4633580324310844912u64,4633382841467184716u64,4633154480818579361u64,4632995813374207564u64,4632731733551057627u64,4632565719609793682u64,4632393653956530458u64,4632161352658251153u64,4632007357698492754u64,4631742180122933644u64,4631601639667062014u64,4631443225550169257u64,4631297759282205190u64,4631117193084645304u64,4630929702602658336u64,4630843599407282546u64,4630608567801729149u64,4630502620620495258u64,4630354001832792031u64,4630270657092188006u64,4630063153739356910u64,4629968775179665827u64,4629761215531839390u64,4629723863802429886u64,4629259627123341001u64,4629043003981264480u64,4628712270883629459u64,4628470709058616374u64,4628118640157746686u64,4628093757769805464u64,4627884790747095501u64,4627736678614350325u64,4627679595489073404u64,4627058661690449697u64,4627003548890009751u64,4626918599742038475u64,4626513050595593762u64,4626507815161026943u64,4626262594161316620u64,4626184513002777084u64,4625909906015498168u64,4625737361854774536u64,4625695590968230674u64,4625279120592689588u64,4625440405754344794u64,4624737224967526233u64,4625053265071376957u64,4624707951569948325u64,4624655597224280143u64,4624078573522023298u64,4623864990309695252u64,4623293821286953989u64,4623050063957122561u64,4623186072665869094u64,4622569192106910076u64,4622088995796641753u64,4622665681728926489u64,4621891738132962869u64,4621553405210956672u64,4621999486754047652u64,4621516813463984259u64,4621702474358622658u64,4621325410479821058u64,4621110813957576831u64,4621379566265340160u64,4620141751907757435u64,4620250288658776963u64,4619588034333572221u64,4619817717914568060u64,4620019253997892867u64,4619299128417476348u64,4619728997001908862u64,4618048028440992891u64,4618033616922185216u64,4618177957290242429u64,4619287419058445184u64,4617965837747793279u64,4615586586064653558u64,4618221642206627968u64,4618025060082893189u64,4617240758207786629u64,4615018231791679221u64,4616571072943196670u64,4616165748976733449u64,4615783393368369671u64,4614643982662644733u64,4614457533638071797u64,4614970943995591944u64,4614121565105869823u64,4614855651845131259u64,4613952229759880715u64,4612559266395134976u64,4613079882512059140u64,4611677011228133388u64,4614721894936198400u64,4613826579330277123u64,4607101354006724604u64,4611943624326073609u64,4612143133789565942u64,4613537448234199802u64,4613335236610930935u64,4613448276961577979u64,4615664047978244353u64,4612282295018051848u64,4612390381409108740u64,4612605203111334155u64,4613382974766981129u64,4614698025858173179u64,4613297406374061045u64,4610550210601365515u64,4609115363760085005u64,4612570975754166274u64,4612198978424945156u64,4612459286483407351u64,4606034901614962685u64,4615928409276370934u64,4610812320099678208u64,4611314921818092530u64,4607938122817489907u64,4609448630132510737u64,4612868213329572862u64,4597324939935629299u64,4612395335368698870u64,4606551914852186115u64,4608317325906114548u64,4612022887679515127u64,4586040720709287939u64,4612912798965883402u64,4608666805237198859u64,4596280104822079488u64,4612870915489349127u64,4614687217219067400u64,13832099190326981611u64,4601277298968608763u64,4606436622701725692u64,4607764283871874036u64,4609256776788384754u64,4609244166709427216u64,4613651389304772614u64,4614689018658918393u64,13832089282407800811u64,4609780095065084935u64,4600210846576848889u64,4609017185288208373u64,4604089346575939586u64,4605393589028026369u64,13825233002335092742u64,4609520687726547989u64] }
closed spec fn pub_bias_5() -> Seq<u64> { seq![4645181540655955968u64,4645072986312750295u64,4644957155841396651u64,4644841480181280198u64,4644726719314838055u64,4644622151360990046u64,4644510894858007950u64,4644401499608309354u64,4644292466757643272u64,4644183757603200408u64,4644085726905686504u64,4643980726184061803u64,4643878603544073968u64,4643776005915062934u64,4643673626429158851u64,4643581826883941879u64,4643480481818577207u64,4643384407372151443u64,4643286879811158409u64,4643175630345050731u64,4643008631241368299u64,4642817636395921283u64,4642637970918286872u64,4642463294584614656u64,4642290799682011949u64,4642126354963743166u64,4641957012580879617u64,4641789556080360030u64,4641616962661515474u64,4641444524053908108u64,4641298945195953357u64,4641143359902576542u64,4640987690166706713u64,4640824540233330799u64,4640680819110222338u64,4640540102732490264u64,4640405522509250481u64,4640266354243890315u64,4640120775385935564u64,4639974450619292529u64,4639846893196721678u64,4639718083210504464u64,4639570456622094143u64,4639453820428619665u64,4639334988730326843u64,4639217261821317612u64,4639098556786764310u64,4638970668631095824u64,4638839909430664888u64,4638754650660219231u64,4638605848913781142u64,4638320996237349958u64,4638092917063721314u64,4637904722894292569u64,4637678951815472952u64,4637504296592423990u64,4637296948050830085u64,4637103645110574042u64,4636897718017612526u64,4636700192952705824u64,4636523243708596670u64,4636338244280153591u64,4636186374456469357u64,4636018193157884733u64,4635862720454498609u64,4635660987338690082u64,4635508104205089689u64,4635321120378060800u64,4635217129447915048u64,4635002448483177831u64,4634888521486354193u64,4634716540275583982u64,4634636390275965623u64,4634515496773468389u64,4634345922173749061u64,4634205283201635582u64,4633928705889519677u64,4633688917356859869u64,4633456081256124829u64,4633357283539299389u64,4632941770178679104u64,4632891920960303647u64,4632560033815264127u64,4632442630602478112u64,4632155216503758847u64,4631915484266094395u64,4631691683512111739u64,4631518773433918397u64,4631305668729050745u64,4631182973786702598u64,4631006939336267740u64,4630670858214075231u64,4630591088205675431u64,4630293569155292253u64,4630357435827507901u64,4630262606907854081u64,4629858465136292921u64,4629902206347673757u64,4629626614197976382u64,4628877384104967930u64,4628847322577455232u64,4628432766231755778u64,4628321133255992331u64,4628007739016922687u64,4628229822773547395u64,4627538914295713418u64,4627303319740206599u64,4627093620882557189u64,4627469952926419336u64,4626860278126863999u64,4626596536073686142u64,4626300987348139982u64,4626302788787990902u64,4625370487370129867u64,4625492366035045581u64,4625844097165943245u64,4624978843087534716u64,4625049999961647114u64,4624362187708556955u64,4623863864409788409u64,4623090483763778155u64,4623719974401693978u64,4622620195372690047u64,4623577322883496962u64,4621546874991496962u64,4622153397271313151u64,4621592361347733376u64,4620762010166436992u64,4621688175429805695u64,4620135221688297725u64,4620209080722186500u64,4619234501762823682u64,4618907765609857795u64,4619241031982283268u64,4618001641364830975u64,4616923929974001148u64,4619388299690098171u64,4614854751125206010u64,4616141429538745333u64,4614675507860036597u64,4617902787353010170u64,4614655241661713407u64,4611842293334457863u64,4616588186621780734u64,4609771988585755668u64,4598730063019368443u64,4611976050243390474u64,13820279042744983539u64,13808980411999846397u64,13827475794949523457u64,4604073133617281025u64,13813066077581787133u64,4605906999385546750u64,13836244753783975928u64,13835452570609521142u64,13838110144749632517u64,13830735500359813105u64,13827410943114889213u64,13835383215175259659u64,13834907635054609402u64,13839515267833372157u64,13826991207629619202u64,13837495853760459767u64,13838191659902887945u64,13841021271548765188u64,13841125755060120060u64,13840786183648216066u64,13840348658944417281u64,13840954618274279936u64,13837665189106448380u64,13840663685738351611u64,13840573838925785603u64,13843489694504526845u64,13841754907928063493u64,13841453842292974080u64,13842569834280636421u64,13840355414343858179u64,13843252129624182781u64,13840302497048236542u64,13840052772448899073u64,13839923519139593213u64,13840899899538807295u64,13842566456580915713u64,13842358390278131196u64,13840829418204639228u64,13840015617751973379u64,13841965451210643458u64,13841597507121086973u64,13839749905373958148u64,13839730990255523327u64,13843452764987582463u64,13843210471327629829u64,13845096466261581824u64,13841593003521459715u64,13844434662296339713u64,13842938679090118143u64,13845499313248250098u64,13843323736858257915u64,13842725433647761925u64,13842148072175533061u64,13842074663501606911u64] }
closed spec fn pub_bias_6() -> Seq<u64> { seq![4649695041165632261u64,4649583311432845571u64,4649466173862068827u64,4649355051059700669u64,4649240617407918952u64,4649131552891317990u64,4649020929707033494u64,4648910779752553592u64,4648806262816045112u64,4648698099019369624u64,4648596176930302696u64,4648490785662147808u64,4648387917113471690u64,4648288070902358003u64,4648187827107839712u64,4648092159040911573u64,4647992882816625725u64,4647896447730386049u64,4647802313702080984u64,4647706395826111015u64,4647523173208458422u64,4647338983020573386u64,4647156207244446322u64,4646984014927443578u64,4646806763097734460u64,4646642719481307490u64,4646463317886463744u64,4646296653034316156u64,4646140423866930115u64,4645976464692996158u64,4645823004535693509u64,4645662493430224257u64,4645501605851973655u64,4645359735426837067u64,4645202394433293019u64,4645063511161346772u64,4644923505507930892u64,4644774313214962618u64,4644645337862196586u64,4644503984647329704u64,4644371100310824603u64,4644241273496254022u64,4644099019561461665u64,4643975167053271767u64,4643859470282532061u64,4643741655412592607u64,4643613999473779907u64,4643490565659617867u64,4643371621371334361u64,4643257307346417746u64,4643088534950382037u64,4642856986597665433u64,4642640264939347064u64,4642423388469791503u64,4642209629335603013u64,4642035769279363259u64,4641818949104803040u64,4641619692968789567u64,4641431259545630618u64,4641231524902156737u64,4641061492905600247u64,4640834462226259850u64,4640648231344793662u64,4640489134651082382u64,4640316639748479674u64,4640172214937929436u64,4639972585847571821u64,4639829089904444729u64,4639686888746210506u64,4639523773997206680u64,4639395801399045181u64,4639237844678989578u64,4639131130478444151u64,4638925069684868697u64,4638815667398295683u64,4638671615542089587u64,4638432108484406490u64,4638165382796475472u64,4637956992797467738u64,4637649453237913675u64,4637461399805973286u64,4637235600579655998u64,4636950747903224814u64,4636700924787645278u64,4636483260188154914u64,4636295389714949408u64,4636045665115611714u64,4635839090630203742u64,4635747526820279773u64,4635533352510500642u64,4635331774205929312u64,4635216158359245410u64,4634988937684295712u64,4634898443479283229u64,4634695865938544577u64,4634586597352585501u64,4634265251445423773u64,4634277256353180511u64,4633876633018828220u64,4633573625206399171u64,4633221077798069116u64,4632829039450506501u64,4632669443138711559u64,4632303863438959744u64,4632551589565962821u64,4631866563915142083u64,4631617880773218247u64,4631225701688167234u64,4631249542618694654u64,4630918021391124858u64,4630860853823354881u64,4630152690929448570u64,4630327346152497532u64,4629951633353584134u64,4629873439605053956u64,4629766282081420153u64,4629381505788256771u64,4628757700944870531u64,4628830659258833933u64,4628461476679380236u64,4628057166022833022u64,4627605229800226421u64,4627232669521052281u64,4626871143060965114u64,4626770318724307329u64,4626698373720260086u64,4625676225489832953u64,4626494754722107513u64,4626197348261715062u64,4625049099241721583u64,4625498558484533243u64,4625464725192332538u64,4624817389040893428u64,4623610311750767338u64,4624460816540396312u64,4623556381145229576u64,4623663003866407685u64,4622308771458457321u64,4622521679130841317u64,4619991556860184573u64,4617004094047368197u64,4620669573784084987u64,4621115655327176192u64,4620334280791827456u64,4621661491602013440u64,4620399582986424317u64,4618016278063620098u64,4620069018773775357u64,4619184736986940923u64,4618335358097219073u64,4616191869854572029u64,4616771708306595845u64,4616957932151187964u64,4615879320040432640u64,4617469090708894212u64,4618424529369841155u64,4612760577298478077u64,4613082134311872510u64,4610010679366006800u64,4616921452994206207u64,4597296116898004976u64,4605660202125967360u64,13823518031596994561u64,4608425412297170944u64,13837142321189709832u64,13807791461698109430u64,4612520985798301696u64,13835065711401529341u64,4605422412065644540u64,4599111968267763715u64,4607744468033511444u64,13836607293553979388u64,4584801330091786234u64,13831369607187345429u64,13839426997280675830u64,13832713481316155397u64,13819327882503684080u64,13835299448222191626u64,13835151730154412028u64,13837599886911852543u64,13839743600334480381u64,13827066868103356414u64,13838406931965075467u64,13844166022578567170u64,13841112919801182212u64,13839577192328248321u64,13841343504102103041u64,13841517568227700742u64,13843691455767832581u64,13841470280431613948u64,13831116504888287252u64,13841346431441861631u64,13844090925054780930u64,13840291688409131010u64,13846118220427041770u64,13844037332219214849u64,13841569134443435012u64,13843698436347255805u64,13845547389174272503u64,13845088247192262143u64] }
closed spec fn pub_bias_7() -> Seq<u64> { seq![4654206332096741376u64,4654090229826113346u64,4653975787378238607u64,4653862379350903279u64,4653750273145335238u64,4653639890973999550u64,4653528330126198886u64,4653420089803514105u64,4653313292040084967u64,4653207942993176586u64,4653103753271328532u64,4652998739355564297u64,4652895968443520726u64,4652797238456611557u64,4652696157274037551u64,4652599095905974695u64,4652502207820944376u64,4652405399780360559u64,4652311598244371733u64,4652220120636159374u64,4652036951674674217u64,4651850713756333611u64,4651678095708428593u64,4651498025610515159u64,4651329717648191023u64,4651156656277197685u64,4650987641108994562u64,4650818585478763538u64,4650658482512010517u64,4650494741481183511u64,4650333535484365505u64,4650180458836718623u64,4650029776485592387u64,4649878525906856916u64,4649726094892437864u64,4649582630615245652u64,4649434587092026078u64,4649296685464061110u64,4649155129939054717u64,4649013753854345976u64,4648889728942732843u64,4648754040411772263u64,4648615644443379447u64,4648496548862295959u64,4648364829128506999u64,4648246169833637413u64,4648123768680796180u64,4648000633933796894u64,4647887901446405672u64,4647761276409695175u64,4647605223164169578u64,4647382344240735663u64,4647164862599980175u64,4646935263461477292u64,4646732946285092091u64,4646545019516891221u64,4646325409221624359u64,4646110513632217399u64,4645945199859958022u64,4645751780811274086u64,4645558530647576176u64,4645379076276174297u64,4645210585355115299u64,4645051632917329582u64,4644870809873853448u64,4644725603970242839u64,4644550927636570623u64,4644381261557483858u64,4644249330717462364u64,4644084995070747057u64,4643953039601665101u64,4643770851404551920u64,4643650981767282478u64,4643491290457682896u64,4643375326285715315u64,4643238846106382736u64,4642986085095733776u64,4642737774908154053u64,4642493370185876190u64,4642281750261510701u64,4641977785434160864u64,4641757116089294127u64,4641532168324781389u64,4641306432430333860u64,4641071421935403716u64,4640941999741112156u64,4640754699254734468u64,4640485088448292166u64,4640263799858476666u64,4640111148941732060u64,4639869383047360859u64,4639764976941624459u64,4639532999339568372u64,4639416919059172898u64,4639250665864178749u64,4639077889486599330u64,4638888112020426588u64,4638682100484972059u64,4638483576183898033u64,4638059477836488088u64,4637961594913336957u64,4637765223895834768u64,4637376647690485708u64,4637096425277421414u64,4636992434347275662u64,4636638901776527106u64,4636439054543062527u64,4636285678828252862u64,4635934383983569149u64,4635822441385331328u64,4635532578454314687u64,4635361863880939646u64,4634956835463201855u64,4634933346376395393u64,4634857840713892738u64,4634314565861343487u64,4634409718477220545u64,4634287853886053632u64,4634005323378180346u64,4633862052615034622u64,4633036402065849213u64,4633102942750343682u64,4632622070900131197u64,4632660154464480121u64,4632101539225700097u64,4632018278927589127u64,4631520574873769345u64,4631677412730792579u64,4631490119281289210u64,4631099572751103231u64,4630815170434634756u64,4630211688084567166u64,4630196882500792185u64,4629868373055473151u64,4629874537357463044u64,4629895535390725757u64,4629971026979479555u64,4629204232847924231u64,4628894666668537852u64,4627794043214604041u64,4627531427061332999u64,4626275936075212789u64,4626013263626946293u64,4627192700074359283u64,4626844684413154313u64,4626186933687576824u64,4624867378996757015u64,4625458983102807810u64,4625949425102228231u64,4623501099459803660u64,4624278533345478660u64,4622970237653727250u64,4624927727231763949u64,4623243380971127270u64,4624405309674989084u64,4624247233328068098u64,4621512309864356866u64,4623476554841834490u64,4615990108591265797u64,4623585316772835319u64,4617819020399941631u64,4621722177606991875u64,4620550003213977602u64,4615463637794828280u64,4617844465737836544u64,4617935888810270724u64,4618058386720135168u64,4615951827994431481u64,4614225147897298939u64,4618048929160919041u64,4618786168419919873u64,4615982452471898119u64,4611103252635607018u64,4617507146125746179u64,4612737158580416516u64,4605110762971430916u64,13838938807081070602u64,4607921009138909187u64,4620723279209641982u64,4594046319406874610u64,4612044955317690368u64,4605083741373661181u64,4607449932617883666u64,4614286847212195829u64,13822220994904293375u64,4612524138318041080u64,13837008564280778752u64,13833400730619289613u64,13835575518879346690u64,13818131726442627058u64,13832627912923234322u64,13821767032061853691u64,13835834025497960459u64,13836877059171659781u64,13837809304294522884u64,13841364896200333310u64,13844302819417248768u64,13844874438799952898u64,4594997479648198642u64,13845458893441594391u64,13845237541519908850u64] }
closed spec fn pub_bias_8() -> Seq<u64> { seq![4658712130747367424u64,4658596634087743973u64,4658482017917032045u64,4658367690258171245u64,4658255446393747407u64,4658144694346700135u64,4658034057528471454u64,4657926065695414551u64,4657817452418385628u64,4657712141634481894u64,4657607863951703618u64,4657504004083343897u64,4657402504646546686u64,4657301193446140150u64,4657202304249947279u64,4657103685533614840u64,4657005617452705592u64,4656911555112558658u64,4656816216459314201u64,4656723894426171710u64,4656541773958974800u64,4656362141026884570u64,4656183026184673349u64,4656005702227001449u64,4655835709812863559u64,4655663864061925890u64,4655494398533760031u64,4655329475308030840u64,4655162601108869323u64,4655004720914823014u64,4654848222586990494u64,4654692550212292759u64,4654539376807622633u64,4654389370876049804u64,4654239399249239763u64,4654093974322912900u64,4653950651662818345u64,4653809260624751467u64,4653663977315522262u64,4653531983143631009u64,4653396349148447166u64,4653260328125170346u64,4653130904171660182u64,4653000674496029183u64,4652876678611523024u64,4652753908022774858u64,4652637140767514349u64,4652518726004030780u64,4652398925855896214u64,4652282742661212380u64,4652133261856392977u64,4651906809959973441u64,4651700163346602708u64,4651480577680396308u64,4651285849773070667u64,4651079827682304511u64,4650874247155408070u64,4650687141942295475u64,4650486589262170528u64,4650292790222268033u64,4650107057199666902u64,4649930635721139080u64,4649738634602650324u64,4649583072179115367u64,4649424295663190095u64,4649263086147934880u64,4649081916538393670u64,4648931408349909274u64,4648779746114020363u64,4648610340399287055u64,4648469678557331718u64,4648325482445200058u64,4648170752132065001u64,4648025871683896214u64,4647886397314498875u64,4647789189931291858u64,4647601929906942046u64,4647299041721378144u64,4647089955071803034u64,4646795943903317144u64,4646625018223709599u64,4646348409245658810u64,4646165872723261950u64,4645898017616986916u64,4645728295242904808u64,4645520228940120291u64,4645286882665989913u64,4645055791710110500u64,4644893721936957696u64,4644682661444108419u64,4644528912774954659u64,4644383939088199800u64,4644190435597022886u64,4644008588688318949u64,4643840108322571577u64,4643632358679135877u64,4643576267753151844u64,4643338146959729064u64,4643169395674316625u64,4642843518020029828u64,4642729415101345711u64,4642467889663609458u64,4642077828677758284u64,4641864203244183696u64,4641663793060765709u64,4641268792189073228u64,4641099266847474817u64,4640856332831950268u64,4640623377104350076u64,4640441403531906672u64,4640193578888661775u64,4640000325206526657u64,4639784736484989582u64,4639668536577728971u64,4639397103220812467u64,4639229646720292880u64,4639037378200576249u64,4638848923666794047u64,4638779476753165110u64,4638284024499159014u64,4638176458836809107u64,4637785560462902113u64,4637552583624678633u64,4637154803187591134u64,4636857270063459205u64,4636632737474537087u64,4636388881628463873u64,4636018685739094018u64,4636137397810521731u64,4635595656996595581u64,4635398160079186563u64,4634827300678919681u64,4634848706850898435u64,4634456204069624317u64,4634010699550235393u64,4634100405625313276u64,4634351636115776259u64,4632527044947993595u64,4633499709877515009u64,4631824314521137927u64,4631740491273073409u64,4632013916065449985u64,4631826707058439939u64,4631282193715993090u64,4630442947925432570u64,4630830313788381691u64,4630148862869765376u64,4630243607346926084u64,4629714462538207750u64,4628582116854398452u64,4627355561495884294u64,4629957488033099772u64,4628116726127905278u64,4628349562228640248u64,4626695558970492923u64,4628127422177019917u64,4627294425130942458u64,4626182373792953858u64,4626280890034802700u64,4622240879694074880u64,4625940586787959798u64,4623579236913338369u64,4625828334567247870u64,4619250489541500926u64,4614826378447552518u64,4618821521676992513u64,4620431108183814143u64,4605507079738621956u64,4615802758846767094u64,4605616967569539073u64,4620735101158664190u64,13833215182314651631u64,4617335558979944444u64,4601875376999104506u64,13821259026023841785u64,4595465854009475077u64,13844671213866768384u64,13839788636330754053u64,13839055450311417854u64,13840408106459496444u64,13841106839941685250u64,13844575737554667521u64,13841928746873679870u64,13841522071827329024u64,13845164920975917056u64,13839254059054981110u64,13847291182949990415u64,13848645133882963957u64,13843517616822214662u64,13838000707278684149u64,13846955439597768706u64,13845222229281175565u64,13842624327836127232u64,13844401110479116287u64,13845715148260390928u64,13834506814687772663u64,13840487820172902399u64,13847318429727735782u64,13850158343357760500u64,13845570357532370967u64,13848445005174521836u64] }
closed spec fn pub_bias_9() -> Seq<u64> { seq![4663217385359640048u64,4663101674954956158u64,4662986313975067574u64,4662872220292281165u64,4662759721341159683u64,4662648988645517060u64,4662538802407153441u64,4662430343941361710u64,4662322485808918744u64,4662216664851619722u64,4662112477328794924u64,4662008805476923553u64,4661906832810321746u64,4661806276314696516u64,4661707004268554853u64,4661608722002780514u64,4661511905386006000u64,4661416155515412755u64,4661321687895279822u64,4661228134409114223u64,4661047031649879982u64,4660865980347789921u64,4660685981938034619u64,4660511528145515866u64,4660336704917090179u64,4660168101845845148u64,4659998967930386226u64,4659834676264136029u64,4659670574153690461u64,4659509671182277070u64,4659353244542602681u64,4659197568649467737u64,4659042667252323398u64,4658889392692583517u64,4658741958738610382u64,4658597328539288076u64,4658449843567975413u64,4658309291677182853u64,4658171873834334106u64,4658032803645411138u64,4657900672694273389u64,4657767575932121802u64,4657637081054286184u64,4657509425555278135u64,4657379602259144763u64,4657258797597187061u64,4657140206472038397u64,4657018336163411054u64,4656899010564495036u64,4656786075327159652u64,4656621022359058383u64,4656402609212051843u64,4656198352497155244u64,4655980112633181241u64,4655767641247011203u64,4655557475316822285u64,4655359981917850462u64,4655167368591287360u64,4654967299696278634u64,4654781803288579801u64,4654596671039132087u64,4654423229676920190u64,4654235083006393765u64,4654065448593241879u64,4653900700409763830u64,4653721962040333959u64,4653560780672576415u64,4653412126700501100u64,4653247433052799789u64,4653103913360221536u64,4652962992033522044u64,4652800530834229769u64,4652666437914543417u64,4652513906624663912u64,4652382943354874862u64,4652242247208156738u64,4652015336155681443u64,4651763896318204418u64,4651514764575536412u64,4651266318928124156u64,4651039430745490719u64,4650800785704923807u64,4650603675815607743u64,4650358906935078752u64,4650124278190585789u64,4649923083395670204u64,4649736103087078524u64,4649557297867341693u64,4649360043722100065u64,4649174942258977955u64,4648927506403044605u64,4648795959072678915u64,4648575683792779556u64,4648418341040016895u64,4648227559060021025u64,4648111776087569692u64,4647946907397617248u64,4647801655754322914u64,4647555630791710405u64,4647429406856841667u64,4647066919863396475u64,4646795641317717180u64,4646448093608660924u64,4646214360306437569u64,4645985531705683450u64,4645786479639028092u64,4645520411898855100u64,4645252831230682359u64,4644988923810955640u64,4644733112315246595u64,4644598345614834760u64,4644381613401204728u64,4644189584135218301u64,4643912229248479300u64,4643796560625237247u64,4643529511241083012u64,4643340159505812545u64,4643049001789902990u64,4642850196013852289u64,4642365432772086779u64,4642289216385267951u64,4641844485922065150u64,4641556100734676212u64,4641206290670494591u64,4640918573986175377u64,4640561748158199313u64,4640406064348580614u64,4640078997462517250u64,4639922363674852223u64,4639523766960332298u64,4639460104357474695u64,4638918060957948532u64,4638780046739992950u64,4638783755172811148u64,4638289161417484054u64,4637493248699588097u64,4637309220359814670u64,4637175857515849231u64,4636764144067414555u64,4636650512619316477u64,4635797446407399422u64,4635328283916218114u64,4635503882080439043u64,4634534932620610302u64,4634634574762365952u64,4634766600600192000u64,4633500132089979906u64,4633507253406891009u64,4633216292723465218u64,4631886604933484037u64,4631247515998862338u64,4632396834623767035u64,4630442666450456071u64,4631209404287015940u64,4629524044716463104u64,4628239280332765182u64,4627981561844088821u64,4628160354749295627u64,4629009170689063943u64,4626139871071470605u64,4628032959174836215u64,4625746481644019708u64,4624544921263435768u64,4622082803347152880u64,4621064201701433344u64,4621744357835157502u64,4616574000282951680u64,13829723991883513852u64,13838032232476082182u64,13829979796342308864u64,13846312325570981889u64,13844555020996382720u64,13842186127592382462u64,13845943593351491605u64,13848524268527964176u64,13844823322944180221u64,13848289293217406965u64,13849472332544520191u64,13848207327704186908u64,13852009491689594871u64,13852703665277159423u64,13849505377706786810u64,13851273378330501107u64,13850935946128420851u64,13847239504144265213u64,13853276157232290818u64,13853170266346052607u64,13852201682803693554u64,13853001634687504394u64,13853113774318226426u64,13853611900584511485u64,13855270857802249214u64,13854069663339135997u64,13853233373035831291u64,13855062087812022273u64,13853859063761561605u64,13855157676714114042u64,13855227735835816959u64,13857054114369701890u64,13853882763954599938u64] }
closed spec fn pub_bias_10() -> Seq<u64> { seq![4667721790159375565u64,4667605533077510344u64,4667490290295121746u64,4667376694911005046u64,4667264231913913791u64,4667153086241703775u64,4667043134309268036u64,4666934555227050738u64,4666827174172703064u64,4666721123967229651u64,4666616538751049086u64,4666513154641370703u64,4666410578013031760u64,4666310184025225114u64,4666210629294643950u64,4666112768911481189u64,4666015589126016021u64,4665919903576853001u64,4665826242778352530u64,4665732400120628825u64,4665553172908329245u64,4665371467616722983u64,4665192358711874552u64,4665017360001393073u64,4664843231884218466u64,4664672216044657443u64,4664504194834965830u64,4664338099309939104u64,4664175263397084083u64,4664013935354475394u64,4663854880882010620u64,4663700338585363913u64,4663546068527796244u64,4663396272383041995u64,4663247899446138739u64,4663099098579309953u64,4662957380766387300u64,4662815484832580947u64,4662675442675379025u64,4662538461338646505u64,4662402886717090562u64,4662272009209208478u64,4662141685635284468u64,4662016317780169169u64,4661888759477989016u64,4661767190435547683u64,4661645341237543594u64,4661526222346813597u64,4661410632228701785u64,4661291499704027605u64,4661136732007497204u64,4660916662556174582u64,4660699963767698070u64,4660489783323955665u64,4660282167820938537u64,4660081630533976379u64,4659876322685963626u64,4659684139928153961u64,4659488133508707543u64,4659302381574506414u64,4659120274741253689u64,4658939281053572923u64,4658750502383762853u64,4658587121992749757u64,4658412625539179846u64,4658244212903348745u64,4658090900080604217u64,4657923002016214915u64,4657775590932083638u64,4657629808444575423u64,4657468608165217881u64,4657326635705402235u64,4657189692411772037u64,4657043662754049897u64,4656910645156735510u64,4656780875956574224u64,4656577776367714697u64,4656332447176060201u64,4656065167334268784u64,4655851227880173339u64,4655599848735738167u64,4655373942197086008u64,4655138620320462877u64,4654919397053288992u64,4654704747754486655u64,4654501614300668992u64,4654297928452209535u64,4654082534124328216u64,4653884110978323946u64,4653704781511442983u64,4653551327511405448u64,4653368111051017971u64,4653176358861961744u64,4652999827432271145u64,4652825226744998920u64,4652685755894038790u64,4652527173771769309u64,4652324863632258525u64,4652188891867102629u64,4651927276709217532u64,4651666018672709119u64,4651345577003910081u64,4651123533709313276u64,4650884455900969662u64,4650550455934386176u64,4650339851079155459u64,4650077972038479678u64,4649861183529854339u64,4649662968851254660u64,4649438181175634943u64,4649138533470740414u64,4648948224720549122u64,4648810565864751549u64,4648627309821945472u64,4648371851929175938u64,4648173507068399548u64,4647975879968813823u64,4647819872462971907u64,4647604241520188282u64,4647076739821646468u64,4646831328826326918u64,4646619715938835847u64,4646430951782579193u64,4645969470039824898u64,4645748811250269824u64,4645448734296035714u64,4645077387877698555u64,4644997417318377848u64,4644589018237794045u64,4644469996543891839u64,4644135850562164219u64,4643831695739205120u64,4643622028547490561u64,4643489021065683202u64,4643090779713321199u64,4642911529411277576u64,4642513678605445899u64,4641901463494225664u64,4641950039038331646u64,4641550316423904773u64,4641283942579694608u64,4640642601845259520u64,4640731660527890701u64,4639993513512090364u64,4640417442974514178u64,4639505935520557572u64,4639756124553606909u64,4639072787752646414u64,4638919468332832261u64,4637976794562079262u64,4637313892844428278u64,4636531082786698237u64,4636005751963914241u64,4636427879986487296u64,4635666349436996610u64,4634811650670214653u64,4635143312635272707u64,4633569403081748483u64,4633020076517199868u64,4632337077486212094u64,4633836916899614726u64,4632362466529110016u64,4630690983674910718u64,4633491828578166787u64,4629034334551982073u64,4628631712745295883u64,4628013762581426181u64,4625489213515304958u64,4621380016625303550u64,4623980169870163958u64,4620733975258759166u64,4624158174645436396u64,4624834840489451515u64,4614898436041605127u64,4618720866225324036u64,13837240950021554177u64,13844515276729671682u64,13841789360465215490u64,13847670836398579719u64,13838243000938627066u64,13846888335963324433u64,13846146930874662935u64,13851323874941325307u64,13850347381952118785u64,13850935946128420851u64,13853065585802215420u64,13849405454090055681u64,13850501968009330698u64,13852762043187331070u64,13853124751842318339u64,13850367704445435915u64,13854715141755729915u64,13853621864798687225u64,13854163056736409606u64,13856191787631050758u64,13854940743949561859u64,13854521909184217092u64,13854776644038139898u64,13857601132839441407u64,13855599423542562817u64,13854565903723077629u64] }
closed spec fn pub_bias_11() -> Seq<u64> { seq![4672225679398108817u64,4672109351012914535u64,4671994361612980558u64,4671880748526726650u64,4671768224616691217u64,4671657045629278880u64,4671547101943180349u64,4671438505213801424u64,4671331222730671181u64,4671225317935610541u64,4671120481755900936u64,4671016985001256288u64,4670914906121831239u64,4670814132087830453u64,4670714540908438828u64,4670616231649654027u64,4670519300793621388u64,4670423941689460654u64,4670329234705646354u64,4670236453461472523u64,4670056524705778840u64,4669875485058512034u64,4669697203536163504u64,4669520730270638014u64,4669347151249570320u64,4669177359496304499u64,4669008814589224577u64,4668842808674395514u64,4668679934608487009u64,4668518075501762105u64,4668360524501497151u64,4668203160528160083u64,4668050217910980628u64,4667898176123677809u64,4667751343712516230u64,4667604186615570969u64,4667460017991230004u64,4667316695990842425u64,4667179244832791357u64,4667043980603367935u64,4666906809820781950u64,4666775678105811524u64,4666646038428119990u64,4666517169178226039u64,4666391002417961999u64,4666269106380762566u64,4666149951096197690u64,4666029415814588793u64,4665911818098195825u64,4665796141008714256u64,4665646659104383225u64,4665423046146986607u64,4665208570790923783u64,4664992156336154214u64,4664787547777536727u64,4664588240404281400u64,4664384224922235935u64,4664183739972027259u64,4663993344580319707u64,4663800017450807853u64,4663616678065020391u64,4663437607203274280u64,4663259400117862951u64,4663085634399720859u64,4662918398681136130u64,4662749876094142251u64,4662591184020709992u64,4662428575047054944u64,4662270057795971501u64,4662130664790434618u64,4661968682978212053u64,4661830097454014608u64,4661690133142235932u64,4661543972862532413u64,4661408861355274089u64,4661277012978624668u64,4661048662885330951u64,4660790048514580362u64,4660554420533920059u64,4660322119235640776u64,4660076904833000197u64,4659844563072692991u64,4659626068561825973u64,4659412564074530498u64,4659190164977970944u64,4658983634473028105u64,4658776746846708586u64,4658570219860202933u64,4658389944813322083u64,4658182070265365450u64,4658010957668781182u64,4657828827965686599u64,4657649488383298660u64,4657488619276843383u64,4657317928452919552u64,4657152728150260161u64,4656994527778427843u64,4656847388933375625u64,4656637807943372662u64,4656339363544003563u64,4656077303303811524u64,4655815404911731050u64,4655532549828025298u64,4655255618912969871u64,4654992045744777968u64,4654735465470538809u64,4654515081998695295u64,4654278150437049100u64,4654021162903702969u64,4653801034518557142u64,4653605625793631538u64,4653403916427274171u64,4653194203495875897u64,4652963912984461425u64,4652826575186059181u64,4652584307914385715u64,4652417121453921997u64,4652267197326014187u64,4652004485295329282u64,4651635058184489472u64,4651350242451649025u64,4651023020754348540u64,4650675919886817795u64,4650407795620096255u64,4650219488860676738u64,4649827102187830527u64,4649590768760509825u64,4649300012146442109u64,4649118967441421824u64,4648910554572572162u64,4648679488245753219u64,4648272477188648189u64,4648147817199118852u64,4647892830776935300u64,4647800908086416000u64,4647206327382486793u64,4646924039646780920u64,4646893021104347388u64,4646018024473307399u64,4645762916665040131u64,4645403342937603842u64,4645346249257015294u64,4644816657606771456u64,4644660312330957575u64,4644162900307426043u64,4644010062913509383u64,4643567999425710845u64,4643379868588152071u64,4643263893860872705u64,4642082360424883185u64,4641801216181270023u64,4641716013705820165u64,4640925829003700235u64,4640069891747020801u64,4640053735083357679u64,4639937000373641212u64,4639440485551598068u64,4639187742133134835u64,4638393447896354789u64,4638308611338375182u64,4635996547732174846u64,4635343722818691074u64,4635157217499121664u64,4633515191001235460u64,4635565722132822015u64,4632556065018093562u64,4630319380410654721u64,4630918612488577020u64,4631107848115417089u64,4626227860149190666u64,4626242609437966335u64,13844282215448952833u64,13827787444043644928u64,4605874573468237825u64,4614460686157807624u64,13839314857649962997u64,13840978937712279548u64,13851075445126881270u64,13850450176613613573u64,13851504244106403832u64,13853494244044247036u64,13853779181163171838u64,13854681139578544126u64,13856765264748601344u64,13857914062644799486u64,13856580279393906693u64,13856711700060532730u64,13858512647330271234u64,13858229033143738365u64,13858777515283357699u64,13859226411576215551u64,13857648209529296898u64,13856632605592076289u64,13859847176489852929u64,13860338026627989504u64,13859833595322226689u64,13859515007869837310u64,13860282801237559296u64,13860650365335896061u64,13860211925838424045u64,13860793016854093796u64] }
closed spec fn pub_bias_12() -> Seq<u64> { seq![4676729552913825792u64,4676613191378355932u64,4676498065501541158u64,4676384189714471584u64,4676271721989480330u64,4676160686405872045u64,4676050608606842716u64,4675942083648085295u64,4675834775134017264u64,4675728750767067103u64,4675624064670694690u64,4675520531247337256u64,4675418357122717450u64,4675317679378447466u64,4675218087924177935u64,4675119959287665787u64,4675022976837050014u64,4674927377379647449u64,4674832966879143579u64,4674739928101858732u64,4674560221804855139u64,4674379461763395276u64,4674200295079210805u64,4674024670966515447u64,4673851001455640786u64,4673679467636151917u64,4673511631749145166u64,4673345281522249866u64,4673182262485733238u64,4673020815530942005u64,4672861920047858608u64,4672706654987243382u64,4672552673111673353u64,4672401132261868149u64,4672252687142026530u64,4672106793054088095u64,4671961872473744894u64,4671821507170075568u64,4671682111470735196u64,4671546107709790932u64,4671410922920082617u64,4671278845625112304u64,4671149073951049856u64,4671022365846235880u64,4670895809144173049u64,4670773827455017812u64,4670651885238330012u64,4670532537979034927u64,4670416684362961519u64,4670302419156361177u64,4670147304673863375u64,4669924591556782929u64,4669707630424832029u64,4669495606649845658u64,4669289227987458615u64,4669085725427587508u64,4668886620034618203u64,4668690495747525286u64,4668501414382164089u64,4668307655474436008u64,4668123990303353235u64,4667943207611953840u64,4667766612960344644u64,4667595779309860343u64,4667426808891780471u64,4667258362390991235u64,4667096192012524506u64,4666938944807322308u64,4666781037345387630u64,4666627386312866398u64,4666482678707925497u64,4666335167018480278u64,4666194436676950530u64,4666055135590585729u64,4665916826043806856u64,4665789564829668527u64,4665582218707000193u64,4665323434571654276u64,4665077328025278941u64,4664822015487946564u64,4664595856061620027u64,4664371900716302530u64,4664128558122257089u64,4663921850156137537u64,4663696292162671361u64,4663490924061421406u64,4663291766221747456u64,4663090119087748221u64,4662902721624444963u64,4662716178261774172u64,4662535803819042181u64,4662349419445752734u64,4662172610499327295u64,4661997938343799266u64,4661848130984026402u64,4661683076036804226u64,4661521037049976995u64,4661362808310744703u64,4661196307065927294u64,4660920379345281094u64,4660667409427422856u64,4660353333930948664u64,4660097541346839622u64,4659857594044700741u64,4659560220129852422u64,4659329079036242747u64,4659074527580859138u64,4658833321118004150u64,4658616894128802047u64,4658408368669961726u64,4658198573495093695u64,4657990283771546436u64,4657787375057905468u64,4657594562060030784u64,4657430510966924745u64,4657215591188261953u64,4657047893674793601u64,4656875735662553600u64,4656613370637738364u64,4656377947606045434u64,4656007727087615117u64,4655777676709540240u64,4655340641068513275u64,4655114745085172742u64,4654771832037529870u64,4654558670158057588u64,4654273650355858938u64,4653967604372900090u64,4653745544365726455u64,4653529615235389430u64,4653277417174693891u64,4652975931086357756u64,4652745509513157254u64,4652502847296907134u64,4652436574893249913u64,4652210644605146637u64,4651646989205064962u64,4651369004518065404u64,4651187449639649795u64,4650718097152859133u64,4650616416076741118u64,4650169852507752445u64,4649868978627490558u64,4649406684125741056u64,4649126549673606914u64,4648689338110719488u64,4648587869900052479u64,4648201091616117245u64,4647779964588930052u64,4647778045281432835u64,4647421251119391740u64,4646647863436506631u64,4646518078843182591u64,4646305368203282437u64,4645604228110045186u64,4645408905586831368u64,4644779189768933883u64,4643965945229347320u64,4643770154753984508u64,4643503685911969792u64,4642903458116321277u64,4642032208620908537u64,4642070890319583246u64,4641114494643714055u64,4640411454594383884u64,4638944238130782200u64,4638865256252317683u64,4637472335108816877u64,4635808001719025663u64,4633177167701704703u64,4634268432112660477u64,4630597280655163389u64,4630426706819276802u64,4631694807884349441u64,4632117104791912449u64,4624823131130429415u64,4619248012561678333u64,13853469136476323841u64,13854120610309922821u64,4623329512314011652u64,13846504629275066387u64,13855698136816893949u64,13857006601393635327u64,13857653839028830210u64,13858051577244671998u64,13860554424590086134u64,13861998883801821184u64,13860829031577362446u64,13862251563888412686u64,13861087256720998421u64,13862597348860428294u64,13862894009412130801u64,13862881828582514703u64,13863830293700913136u64,13863066096176017419u64,13864005476689543185u64,13863812814104858631u64,13864565907441924097u64,13863718456655792138u64,13864396396174073854u64] }
closed spec fn pub_bias_13() -> Seq<u64> { seq![4681233221260673024u64,4681116934918054609u64,4681001844088172970u64,4680888012955019379u64,4680775478798909964u64,4680664344699059831u64,4680554445488206643u64,4680445884589162889u64,4680338547721438757u64,4680232409493187592u64,4680127864800882459u64,4680024391994975453u64,4679922358209271038u64,4679821252617538896u64,4679721785160693187u64,4679623414913372783u64,4679526550825183740u64,4679430979934467654u64,4679336788449808089u64,4679243809932632392u64,4679063671582534664u64,4678882948635848344u64,4678704113962943775u64,4678528022983867367u64,4678354464661106065u64,4678183735106885124u64,4678015228077980778u64,4677849315209323217u64,4677686284916556300u64,4677526339715977970u64,4677366379878151094u64,4677211228204672483u64,4677057707862852108u64,4676906993474705818u64,4676757832009294807u64,4676611377266633474u64,4676467711366496518u64,4676325077358022230u64,4676186449214005314u64,4676050002020021567u64,4675915702584563728u64,4675783096946768478u64,4675652961980320317u64,4675525519236812243u64,4675399698410394092u64,4675276265036036702u64,4675155696782822867u64,4675037087172134961u64,4674921654737734468u64,4674808699090714493u64,4674653146507808604u64,4674431208436474577u64,4674216690144482689u64,4674001329214267064u64,4673797256969933816u64,4673589110347824890u64,4673390642589136323u64,4673197302128045982u64,4673007177188711072u64,4672814065838356169u64,4672630446434444902u64,4672450669686233760u64,4672275572184632525u64,4672099252575857017u64,4671929158951673790u64,4671765589554611880u64,4671605101813764719u64,4671442604165661983u64,4671284913444956930u64,4671132508901280317u64,4670990840676332077u64,4670836373173963850u64,4670699390105500516u64,4670561291307612897u64,4670422325407367823u64,4670294478318458634u64,4670087629120070484u64,4669829988806670942u64,4669578924672317129u64,4669333990040410259u64,4669111027773994959u64,4668881315330818834u64,4668649796664916181u64,4668427079314715967u64,4668202722317800833u64,4668003013897679274u64,4667805660631464411u64,4667600865595674853u64,4667407967825453646u64,4667227660013126287u64,4667042568775462289u64,4666875927892668187u64,4666682809945243522u64,4666506314689485472u64,4666338579517743841u64,4666167907275566498u64,4666024285768211486u64,4665870129290194977u64,4665710863656522110u64,4665407042755244349u64,4665111058623093572u64,4664873532225656706u64,4664583438177295936u64,4664331873765151485u64,4664063623714299707u64,4663806475982109442u64,4663625006535747327u64,4663334698082619075u64,4663089509738404097u64,4662885639941649345u64,4662701695494613118u64,4662477106500744511u64,4662285194442697605u64,4662095804664324795u64,4661870956185712067u64,4661665760927689987u64,4661474678451166271u64,4661330535225543874u64,4661061219747924870u64,4660796030737444744u64,4660492993238201861u64,4660156846145311627u64,4659920045425549049u64,4659615582959236613u64,4659269689795277706u64,4658990746993845884u64,4658752643352804480u64,4658524781662575744u64,4658215329612496394u64,4658003493304242558u64,4657708532817417208u64,4657586015336245756u64,4657399734976756362u64,4657134511881415797u64,4656881535146585467u64,4656564804329530108u64,4656217805056873989u64,4655723354677862902u64,4655462185481894145u64,4655029178011666700u64,4654658653588222466u64,4654353585291002861u64,4653992298964255244u64,4653782191088280317u64,4653461659259527670u64,4653048038378321172u64,4652483058726435073u64,4652658943203483889u64,4652379821181656585u64,4652073178383786005u64,4651490050192971774u64,4650950726545408508u64,4650564815556244992u64,4650096815028952063u64,4649794084293452801u64,4648911009330581506u64,4648723995596836351u64,4648231814609825284u64,4647222243033201668u64,4647732280089047554u64,4646078487057522696u64,4645515739414241281u64,4645217191220975610u64,4644961585553842177u64,4644983303107514361u64,4643208471437959151u64,4643265646042603520u64,4641432100452122627u64,4640022614506246128u64,4641147564435042318u64,4636436007576436734u64,4634458505127559166u64,4632894735710076932u64,4629627092705443827u64,13848500455744929782u64,4620932471412359170u64,13851489297785126900u64,13861405907505258488u64,13857763445384757251u64,13854616977357602819u64,13860627594010279958u64,13864255419431989237u64,13863297436940939262u64,13863380243360649202u64,13864228714493571069u64,13865454942637424645u64,13865855991702679549u64,13866823201295310840u64,13866340058293878790u64,13864840764238241783u64,13867059024549234689u64,13867193120987359235u64,13867437555616352265u64,13868004428627261446u64,13868771483123171322u64,13867063176305141752u64,13868492585401716736u64,13868924060152733697u64,13868491195619018752u64,13869393569209980921u64,13869418321415745537u64] }
closed spec fn pub_bias_14() -> Seq<u64> { seq![4685736855247781888u64,4685620510184370602u64,4685505469004310905u64,4685391641100972720u64,4685279175355102396u64,4685167976315346747u64,4685058138883303145u64,4684949436525216530u64,4684842136903448789u64,4684736159135175803u64,4684631327642134512u64,4684528211765189673u64,4684425728828985311u64,4684325136193787265u64,4684225386059374002u64,4684127315669490336u64,4684030498241825997u64,4683934661887771279u64,4683840424051824656u64,4683747124030577050u64,4683567664422751044u64,4683386038983176749u64,4683207145967436431u64,4683032301353509585u64,4682857802535989674u64,4682687906480302064u64,4682519062038766944u64,4682353293618449482u64,4682190078057973285u64,4682029347668653769u64,4681871107673171165u64,4681715330858612687u64,4681560807281151443u64,4681410758578576294u64,4681260489355200299u64,4681115898628345430u64,4680972366318871249u64,4680830293336205033u64,4680688720425171026u64,4680553547290285965u64,4680419365021535961u64,4680286825698035761u64,4680156980040584659u64,4680028804678735102u64,4679905191671665525u64,4679779363629702316u64,4679660334280450507u64,4679539624946150932u64,4679423720683823170u64,4679309946519115792u64,4679155622709173420u64,4678934118120298643u64,4678718585253952225u64,4678507328250887274u64,4678300295708935193u64,4678093037629660463u64,4677896528513497825u64,4677700032591474721u64,4677504456685806158u64,4677317829155520250u64,4677135719930829734u64,4676956659926760948u64,4676776905168782361u64,4676604765078581936u64,4676431113709649134u64,4676269968460848562u64,4676106408821952348u64,4675949376983590240u64,4675788819011437855u64,4675636396050941477u64,4675488980953592758u64,4675341504283592884u64,4675196367649214824u64,4675054747940217160u64,4674921850382084735u64,4674796681428622901u64,4674588942587888927u64,4674338040356622303u64,4674086438011326693u64,4673849122445244525u64,4673612502320266871u64,4673377928661306442u64,4673141356090206716u64,4672925283363651060u64,4672728177212674540u64,4672503841656236147u64,4672304987006893556u64,4672105871223539368u64,4671921973505747321u64,4671711221865714259u64,4671538697771077861u64,4671352973214716264u64,4671183016479730696u64,4671003307351484662u64,4670851940059589875u64,4670672296902041534u64,4670523012909803476u64,4670367654115822010u64,4670218639229054823u64,4669931373674356539u64,4669665968060085830u64,4669375019141434442u64,4669103237459234259u64,4668821533784105026u64,4668560936883938394u64,4668306954095968649u64,4668092970441505767u64,4667834368605187736u64,4667616741169190404u64,4667434425098874968u64,4667170507123836584u64,4666973976017441391u64,4666777638974848500u64,4666588696697708222u64,4666389572393138946u64,4666199573485324354u64,4665985391918768450u64,4665841286626297277u64,4665554391607017472u64,4665228891085219070u64,4664892042503910271u64,4664702794562537477u64,4664335673127581309u64,4664079170258960635u64,4663712627167120644u64,4663541248488722432u64,4663232439652945276u64,4662910378403518469u64,4662664839864850044u64,4662468844220617600u64,4662209408954485758u64,4661999422024789765u64,4661804981089998973u64,4661639556267065213u64,4661308943016197631u64,4660920968243708931u64,4660726330496336899u64,4660335324370290432u64,4659859209447184379u64,4659566829514149375u64,4659055486238489335u64,4658973757340173578u64,4658367772501640959u64,4658279314592163080u64,4657961098334898683u64,4657654246629819133u64,4657457069010586632u64,4657076550026446090u64,4656929347409719307u64,4656572309595901439u64,4656120317957908462u64,4655711655874143233u64,4655052863691152383u64,4654398342011323374u64,4654178518850605066u64,4653727551957449748u64,4653205904058813950u64,4652909946314942448u64,4652207147278561271u64,4652500800446061042u64,4651646985686628351u64,4650917437731364863u64,4650170543880663040u64,4649397833496942594u64,4649649516106586108u64,4648373326154366979u64,4647838180650987521u64,4644389980244885500u64,4644344997025173499u64,4644700798987919368u64,4644154843086217208u64,4641825021927423990u64,4636942979193864222u64,4626108796234039300u64,13816251023242559514u64,13853160273984389117u64,13859357649284104192u64,13862976784165904384u64,13857596952936038401u64,13862631906950692854u64,13866644790140538880u64,13866478332876185613u64,13865103679458680823u64,13869074130295787523u64,13869714767342780413u64,13869177660310659070u64,13867321385615810567u64,13869192472931307518u64,13871235497477109762u64,13870992223932395523u64,13871097451593220100u64,13870512485018963964u64,13871826955568015364u64,13871218943230042116u64,13872429848579852290u64,13872567287533324290u64,13872776141966043140u64,13874064206643843076u64,13873245695003754498u64,13872857584991334400u64] }
pub closed spec fn pub_bias(i: int) -> Seq<u64> { if i == 0 { pub_bias_0() } else if i == 1 { pub_bias_1() } else if i == 2 { pub_bias_2() } else if i == 3 { pub_bias_3() } else if i == 4 { pub_bias_4() } else if i == 5 { pub_bias_5() } else if i == 6 { pub_bias_6() } else if i == 7 { pub_bias_7() } else if i == 8 { pub_bias_8() } else if i == 9 { pub_bias_9() } else if i == 10 { pub_bias_10() } else if i == 11 { pub_bias_11() } else if i == 12 { pub_bias_12() } else if i == 13 { pub_bias_13() } else if i == 14 { pub_bias_14() } else { Seq::empty() } }
