// Reads one command per line on stdin, answers on stdout with lines and a final "." line.
#include "eustace/timeutils/timebase.h"
#include "eustace/definitions.h"
#include "eustace/analysis/inputmanager.h"
#include "eustace/analysis/fileio/rawbinary.h"
#include "eustace/analysis/fileio/locationpointers.h"
#include "eustace/analysis/fileio/mesh.h"
#include "eustace/analysis/break_points/break_points.h"
#include "eustace/analysis/break_points/insitu_land_break_points.h"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

using namespace EUSTACE;

static FILE* out = 0;

static void print_uuid(const LocationLookupUUID& uuid)
{
  fprintf(out, "uuid ");
  for (size_t i = 0; i < LocationLookupUUID::sizebytes; i++) fprintf(out, "%02x", uuid.Bytes()[i]);
  fprintf(out, "\n");
}

static void print_breaks(const ObservationBreakingPoints& b)
{
  fprintf(out, "size %zu %zu %zu\n", b.break_time.size(), b.break_station.size(), b.break_likelihood.size());
  for (size_t i = 0; i < b.break_time.size() && i < b.break_station.size() && i < b.break_likelihood.size(); i++)
    fprintf(out, "break %d %d %d\n", (int)b.break_time[i], (int)b.break_station[i], (int)b.break_likelihood[i]);
}

static void run(const std::string& line)
{
  std::istringstream in(line);
  std::string command;
  in >> command;
  if (command == "number")
  {
    long y, m, d, ey, em, ed;
    in >> y >> m >> d >> ey >> em >> ed;
    fprintf(out, "%lld\n", (long long)TimeBaseDays(CalendarDay(ey, em, ed)).Number(CalendarDay(y, m, d)));
  }
  else if (command == "time")
  {
    long n, ey, em, ed;
    in >> n >> ey >> em >> ed;
    std::string text;
    CalendarDay(TimeBaseDays(CalendarDay(ey, em, ed)).Time(n)).Text(text);
    fprintf(out, "%s\n", text.c_str());
  }
  else if (command == "epoch")
  {
    long n;
    in >> n;
    std::string text;
    CalendarDay(TimeBaseDays(EPOCH).Time(n)).Text(text);
    fprintf(out, "%s %lld\n", text.c_str(), (long long)TimeBaseDays(EPOCH).Number(CalendarDay(text)));
  }
  else if (command == "text")
  {
    std::string s, text;
    in >> s;
    CalendarDay day(s);
    day.Text(text);
    fprintf(out, "%s %d %d %d\n", text.c_str(), day.tm_year + 1900, day.tm_mon + 1, day.tm_mday);
  }
  else if (command == "locations")
  {
    std::string path;
    in >> path;
    LocationLookup lookup;
    std::ifstream stream(path.c_str(), std::ios::binary);
    LocationLookupRawBinaryReader().Read(lookup, stream);
    print_uuid(lookup.ID());
    for (size_t i = 0; i < lookup.Lookup().size(); i++)
      fprintf(out, "%a %a\n", lookup.Lookup()[i].latitude, lookup.Lookup()[i].longitude);
  }
  else if (command == "ranges")
  {
    std::string path;
    in >> path;
    std::vector<double> ranges;
    std::ifstream stream(path.c_str(), std::ios::binary);
    LocalCorrelationRangeRawBinaryReader().Read(ranges, stream);
    for (size_t i = 0; i < ranges.size(); i++) fprintf(out, "%a\n", ranges[i]);
  }
  else if (command == "observations")
  {
    size_t n;
    std::string path;
    in >> n >> path;
    ObservationEntries obs;
    std::ifstream stream(path.c_str(), std::ios::binary);
    ObservationRawBinaryReader(n).Read(obs, stream);
    print_uuid(obs.LocationLookupID());
    for (ObservationIterator it(obs); it.HasElement(); it.Next())
    {
      fprintf(out, "%llu %a %a", (unsigned long long)it.Identifier(), it.Measurement(), it.UncertaintyUncorrelated());
      for (size_t i = 0; i < n; i++) fprintf(out, " %a", it.UncertaintyLocallyCorrelated(i));
      fprintf(out, "\n");
    }
  }
  else if (command == "manager")
  {
    // manager BASE SOURCE OBSERVABLE START END DAY...
    std::string base;
    int source, observable;
    long start, end, day;
    in >> base >> source >> observable >> start >> end;
    AnalysisInputManager manager(base.c_str());
    enum AnalysisInput::sourcetype s = (enum AnalysisInput::sourcetype)source;
    enum AnalysisInput::observabletype o = (enum AnalysisInput::observabletype)observable;
    manager.Specify(AnalysisInput(s, o, start, end));
    bool mobile = (s == AnalysisInput::source_insitu_ocean);
    fprintf(out, "totallocations %zu\n", manager.TotalLocations(s));
    fprintf(out, "total %zu\n", manager.TotalObservations(s, o));
    while (in >> day)
    {
      AnalysisInputRetrieval retrieval;
      manager.RetrieveDay(retrieval, s, o, day);
      fprintf(out, "day %ld %zu %zu %zu\n", day, manager.TotalDailyObservations(s, o, day), retrieval.NumObservations(), mobile ? manager.TotalDailyMobileLocations(s, o, day) : (size_t)0);
      fprintf(out, "ranges");
      for (size_t i = 0; i < retrieval.NumLocalCorrelationRanges(); i++) fprintf(out, " %a", retrieval.LocalCorrelationRange(i));
      fprintf(out, "\n");
      for (AnalysisInputIterator it(retrieval); it.HasElement(); it.Next())
      {
        fprintf(out, "obs %llu %a %a %a %a", (unsigned long long)it.Identifier(), it.Location().latitude, it.Location().longitude, it.Measurement(), it.UncertaintyUncorrelated());
        for (size_t i = 0; i < retrieval.NumLocalCorrelationRanges(); i++) fprintf(out, " %a", it.UncertaintyLocallyCorrelated(i));
        fprintf(out, "\n");
      }
    }
  }
  else if (command == "bylocation")
  {
    // bylocation BASE SOURCE OBSERVABLE ID...
    std::string base;
    int source, observable;
    uint64_t id;
    in >> base >> source >> observable;
    std::vector<uint64_t> ids;
    while (in >> id) ids.push_back(id);
    AnalysisInputManager manager(base.c_str());
    AnalysisInputRetrievalCollection collection;
    manager.RetrieveLocations(collection, (enum AnalysisInput::sourcetype)source, (enum AnalysisInput::observabletype)observable, ids);
    for (size_t k = 0; k < collection.Retrievals().size(); k++)
    {
      const AnalysisInputRetrieval& retrieval = *collection.Retrievals()[k];
      fprintf(out, "retrieval %zu\n", retrieval.NumObservations());
      if (retrieval.NumObservations() == 0) continue;
      for (AnalysisInputIterator it(retrieval); it.HasElement(); it.Next())
      {
        fprintf(out, "obs %llu %a %a", (unsigned long long)it.Identifier(), it.Measurement(), it.UncertaintyUncorrelated());
        for (size_t i = 0; i < retrieval.NumLocalCorrelationRanges(); i++) fprintf(out, " %a", it.UncertaintyLocallyCorrelated(i));
        fprintf(out, "\n");
      }
    }
  }
  else if (command == "breaks")
  {
    // breaks POLICY THRESHOLD DECAY STATION N time station likelihood ...
    int policy, station, n;
    double threshold, decay;
    in >> policy >> threshold >> decay >> station >> n;
    std::vector<int32_t> time(n), stations(n);
    std::vector<int> likelihood(n);
    for (int i = 0; i < n; i++) in >> time[i] >> stations[i] >> likelihood[i];
    ObservationBreakingPoints b(time, stations, likelihood);
    fprintf(out, "n %d %d\n", b.number_of_observations(), b.number_of_stations());
    std::vector<int32_t> collection = b.stations_collection(), count = b.stations_count(), filtered = b.filtered_breakpoints(station);
    fprintf(out, "stations");
    for (size_t i = 0; i < collection.size(); i++) fprintf(out, " %d:%d", (int)collection[i], (int)count[i]);
    fprintf(out, "\nfiltered");
    for (size_t i = 0; i < filtered.size(); i++) fprintf(out, " %d", (int)filtered[i]);
    fprintf(out, "\n");
    b.apply_policy(policy, threshold, decay);
    print_breaks(b);
  }
  else if (command == "breakfile")
  {
    std::string path;
    in >> path;
    BreakPointsReader reader(path.c_str());
    ObservationBreakingPoints* b = reader.observation();
    print_breaks(*b);
    delete b;
    const std::vector<std::vector<float> > lookup = reader.ObservationLocationLookup();
    for (size_t i = 0; i < lookup[0].size(); i++) fprintf(out, "place %a %a\n", lookup[0][i], lookup[1][i]);
  }
  else if (command == "mesh")
  {
    std::string path;
    in >> path;
    MeshReader reader;
    reader.Read(path.c_str());
    for (size_t i = 0; i + 2 < reader.Points().size(); i += 3)
      fprintf(out, "p %a %a %a\n", reader.Points()[i], reader.Points()[i+1], reader.Points()[i+2]);
    for (size_t i = 0; i + 2 < reader.Triangles().size(); i += 3)
      fprintf(out, "t %d %d %d\n", reader.Triangles()[i], reader.Triangles()[i+1], reader.Triangles()[i+2]);
  }
  else
    fprintf(out, "unknown command\n");
}

int main()
{
  // the library prints on stdout: keep our answers on a descriptor of their own
  out = fdopen(3, "w");
  std::string line;
  while (std::getline(std::cin, line))
  {
    try { run(line); }
    catch (const FormatExceptionBadHeader&) { fprintf(out, "EXCEPTION header\n"); }
    catch (const FormatExceptionUnexpectedDataSize&) { fprintf(out, "EXCEPTION size\n"); }
    catch (const FormatException&) { fprintf(out, "EXCEPTION format\n"); }
    catch (const MeshReaderException&) { fprintf(out, "EXCEPTION mesh\n"); }
    catch (const BreakPointsReaderException&) { fprintf(out, "EXCEPTION breakpoints\n"); }
    catch (const std::exception& e) { fprintf(out, "EXCEPTION %s\n", e.what()); }
    fprintf(out, ".\n");
    fflush(out);
  }
  return 0;
}
