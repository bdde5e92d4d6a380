//! Instantiations of the generic part of osm-io's public API, so that the
//! analyser sees it monomorphised.
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::reader::Reader;

pub fn root_parallel_for_each(reader: &Reader, tasks: usize, f: fn(Element) -> Result<(), anyhow::Error>) -> Result<(), anyhow::Error> {
    reader.parallel_for_each(tasks, f)
}
